"""nanoseconds of the time units; a year has 365.24225 days"""
UNITS = dict(
    nanoseconds=1, microseconds=10 ** 3, milliseconds=10 ** 6,
    centiseconds=10 ** 7, deciseconds=10 ** 8, seconds=10 ** 9,
    minutes=60 * 10 ** 9, hours=3600 * 10 ** 9, days=86400 * 10 ** 9,
    months=2629744200000000, years=31556930400000000)
