"""What the checks of the SQL storage have in common"""
from sim import sqlseam  # noqa: F401

URL = 'sqlite:///things.db'
CONF = {'handler': 'oidcmsg.storage.absqlalchemy.AbstractStorageSQLAlchemy', 'url': URL,
        'params': {'table': 'thing'}}

OWNERS = ['a', 'b', 'c', 'https://rp.example.com/cb?x=1', "o'brien", '%', '_', '', ' a', 'A', 'å', 'a;drop table thing',
          '"q"', 'x' * 80]


def setup_db():
    from oidcmsg.storage.db_setup import create_database
    create_database({'url': URL})


def open_sql():
    from oidcmsg.storage.init import storage_factory
    return storage_factory(CONF)


class Unstorable:
    """No data base has a type for this"""


def bad_value(what):
    return None if what == 'none' else Unstorable() if what == 'object' else [what]


def gen_data(rng, u):
    if rng.random() < 0.04:
        return rng.choice(['', ' ', '0', 'None'])
    return 'v%d.%s' % (u, rng.choice(['', 'x' * rng.randrange(60), "it's", '"', '%s', 'å', '{"a": 1}', 'y' * 4000]))


def close(s):
    """An orderly end of a process"""
    for name, call in (('session', 'remove'), ('connection', 'close'), ('engine', 'dispose')):
        fn = getattr(getattr(s, name, None), call, None)
        if fn is not None:
            fn()
