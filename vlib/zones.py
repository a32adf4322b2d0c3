"""Time zones, known without a database.

FIXED: minutes east of UTC.  DST: the instant (UTC) at which the clocks are
put forward, the minutes before and after it.
"""
import datetime

FIXED = {'UTC': 0, 'MST': -420, 'US/Arizona': -420, 'Asia/Kolkata': 330,
         'Etc/GMT+8': -480, 'Etc/GMT-3': 180, 'EST': -300}
DST = {'America/Denver': ('2010-03-14 09:00', -420, -360),
       'Europe/Berlin': ('2012-03-25 01:00', 60, 120),
       'Australia/Adelaide': ('2011-10-01 16:30', 570, 630)}


def time(text):
    return datetime.datetime.strptime(text, '%Y-%m-%d %H:%M')


def minutes(tz, utc):
    if tz in DST:
        change, before, after = DST[tz]
        return after if utc >= time(change) else before
    return FIXED[tz]


def wall(tz, utc):
    """what the clocks show"""
    return utc + datetime.timedelta(minutes=minutes(tz, utc))


def instant(tz, local):
    """UTC of a time on the clocks"""
    if tz in DST:
        change, before, after = DST[tz]
        utc = local - datetime.timedelta(minutes=before)
        if utc < time(change):
            return utc
        return local - datetime.timedelta(minutes=after)
    return local - datetime.timedelta(minutes=FIXED[tz])


def across(r, c, n):
    """Let a run of n records go over a change of the clocks (or not far from
    it)."""
    tz = r.choice(sorted(DST))
    step = c['data_step']
    k = r.choice([1, n // 2, n - 1, n + 3, -3])
    utc = time(DST[tz][0]) - datetime.timedelta(
        minutes=k * step - r.choice([0, 0, step // 2]))
    # start on a full minute that exists only once
    c['tz'] = tz
    c['start'] = wall(tz, utc).strftime('%Y-%m-%d %H:%M')
    return c
