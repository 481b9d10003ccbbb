from __native__ import date, datetime, time, timedelta, tzinfo

MINYEAR = 1
MAXYEAR = 9999
