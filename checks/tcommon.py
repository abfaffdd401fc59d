"""
Places and times that matter, for the checks about time.
"""
SEC = 10 ** 9

# Rules instead of names, so what is installed does not matter
ZONES = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'IST-5:30',
         '<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45', '<-11>11', '<+14>-14', '<-0330>3:30<-0230>,M3.2.0,M11.1.0',
         'GMT0BST,M3.5.0/1,M10.5.0', '<+1030>-10:30<+11>-11,M10.1.0,M4.1.0']

# about when clocks change somewhere, a year or a leap day begins or ends
MOMENTS = [1585443600, 1603587600, 1583650800, 1604210400, 1601128800, 1585994400, 1577836800, 1609459200, 1582934400,
           1583020800, 1709164800, 2147483648, 1900000000, 1000000000, 946684800, 951782400, 1711846800, 1743296400]


def gen_start(rng, plan):
    if rng.random() < 0.6:
        t = rng.choice(MOMENTS) + rng.choice([-1, 1]) * rng.choice([0, 1, 30, 1000, 4000, 20000])
    else:
        t = rng.randrange(10 ** 9, 3 * 10 ** 9)
    plan['start_ns'] = t * SEC + rng.randrange(1000) * 10 ** 6
