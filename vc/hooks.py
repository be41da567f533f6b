"""placeholder for per-run engine hooks"""
