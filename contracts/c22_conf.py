"""C22: the user configuration is what config.json and the environment say."""
from __future__ import annotations
import json
import os
import shutil
import sys
import tempfile
from contracts.base import *
import jsonclasses.uconf
import jsonclasses.uploaders as UP
from jsonclasses.uconf import UserConf
from jsonclasses.keypath import underscore_key

STANDINS = True     # some objects here only have what the code is known to ask

U = sys.modules['jsonclasses.uconf']
ROOT = type(U.uconf())
SCALAR = ('none', 'bool', 'int', 'float', 'str')


def val(e, i):
    return e.any('v', ('none', 'bool', 'int', 'float', 'str', 'opaque'))


# ------------------------------------------------------------- reading
@contract('C22', 'get', covers=('end', 'on', 'wrap'))
def _(E):
    """One step of a key path: the item of a list or dict, or nothing; lists
    and dicts come back as configurations."""
    kind = E.choice('kind', ['list', 'dict', 'none', 'scalar'])
    inner = E.choice('inner', ['scalar', 'list', 'dict'])
    x = {'scalar': lambda: E.any('x', SCALAR), 'list': lambda: ['p'], 'dict': lambda: {'q': 1}}[inner]()
    key = E.choice('key', ['0', '1', '2', '5'])
    c = {'list': lambda: [1, x], 'dict': lambda: {'1': x, 'k': 2}, 'none': lambda: None,
         'scalar': lambda: E.any('c', ('bool', 'int', 'float', 'str'))}[kind]()
    rest = E.choice('rest', [[], ['1'], ['1', '0']])
    log = E.log()
    if len(rest):
        E.assume_contract(UserConf._get, lambda self, kp, v: (log.add('on', kp, v), 'answer')[1])
    conf = UserConf(c)
    out = E.body(UserConf._get, conf, [key] + rest, c) if len(rest) else E.call(conf._get, [key], c)
    E.check('returns', out.kind == 'ret')
    want = None
    if kind == 'list':
        want = {'0': 1, '1': x}.get(key)
    elif kind == 'dict':
        want = {'1': x}.get(key)
    if kind in ('none', 'scalar'):
        E.same('nothing in a scalar', out.v, None)
    elif len(rest):
        if E.symbolic:
            E.same('on with the rest', [list(ev) for ev in log.m], [['on', rest, want]])
            E.same('its answer', out.v, 'answer')
        E.cover('on')
    elif isinstance(want, (list, dict)):
        E.check('a configuration of it', type(out.v) is UserConf and out.v.get('0' if inner == 'list' else 'q')
                == ('p' if inner == 'list' else 1))
        E.cover('wrap')
    else:
        E.same('the value', out.v, want)
        E.cover('end')


# ----------------------------------------------------------- key names
def by_contract(E, *names):
    """Recursive calls by contract in the proof: an arbitrary function of
    their argument."""
    fs = {}
    for n in names:
        f = E.uf(n)
        fs[n] = f
        E.assume_contract(getattr(ROOT, n), lambda self, v, f=f: f(v))
    return fs


def nested(E, fs, on_dict, on_list, on_str, v, again):
    if type(v) is str:
        return on_str(v)
    if isinstance(v, dict):
        return fs[on_dict](v) if E.symbolic else again(v)
    if isinstance(v, list):
        return fs[on_list](v) if E.symbolic else again(v)
    return v


NK = ('_normalize_keys_dict', '_normalize_keys_list')
RE = ('_replace_envs_dict', '_replace_envs_list')


def plain_keys(v):
    if isinstance(v, dict):
        return {U.underscore(k): plain_keys(x) for k, x in v.items()}
    return [plain_keys(x) for x in v] if isinstance(v, list) else v


@contract('C22', 'keys.dict')
def _(E):
    """Every key in snake case, with its value; dicts and lists inside are
    treated alike (induction over the depth)."""
    src = E.dict('conf')
    fs = by_contract(E, *NK)
    out = E.body(ROOT._normalize_keys_dict, object.__new__(ROOT), src)
    E.check('returns', out.kind == 'ret')
    want = {}
    for k, v in src.items():
        want[U.underscore(k)] = nested(E, fs, *NK, lambda s: s, v, plain_keys)
    E.same('keys', out.v, want)


@contract('C22', 'keys.list')
def _(E):
    src = E.list('conf', lambda e: e.any('v'))
    fs = by_contract(E, *NK)
    out = E.body(ROOT._normalize_keys_list, object.__new__(ROOT), src)
    E.check('returns', out.kind == 'ret')
    E.same('items', out.v, [nested(E, fs, *NK, lambda s: s, x, plain_keys) for x in src])


@contract('C22', 'keys.nested')
def _(E):
    a, b = E.any('a', SCALAR), E.str('b')
    k = E.choice('k', ['camelCase', 'snake_case', 'Upper', 'aB1', 'x'])
    root = object.__new__(ROOT)
    w = U.underscore(k)
    src = {k: {k: a, 'l': [{k: b}, a, [{k: a}]]}}
    out = E.call(root._normalize_keys_dict, src)
    E.check('returns', out.kind == 'ret')
    E.same('all depths', out.v, {w: {w: a, 'l': [{w: b}, a, [{w: a}]]}})
    E.same('the input is left alone', src, {k: {k: a, 'l': [{k: b}, a, [{k: a}]]}})


# --------------------------------------------------------- environment
@contract('C22', 'environ', covers=('plain', 'set', 'missing'))
def _(E):
    """A text environ['NAME'] stands for that variable; a missing variable is
    reported; other texts are themselves."""
    root = object.__new__(ROOT)
    name = E.choice('name', ['A', 'HOME_X', 'a b', "x'y", '1'])
    have = E.bool('have')
    value = E.str('value')
    E.swap(U, environ={name: value} if have else {'OTHER': 'o'})
    form = E.choice('form', ["environ['{}']", 'environ["{}"]', 'env', ' environ["{}"]', 'environ["{}"]x', "environ[{}]", 'environ[""]'])
    text = form.format(name)
    out = E.call(root._replace_envs_str, text)
    if form in ("environ['{}']", 'environ["{}"]'):
        if have:
            E.check('returns', out.kind == 'ret')
            E.same('the variable', out.v, value)
            E.cover('set')
        else:
            E.check('reported', out.kind == 'exc' and isinstance(out.v, KeyError))
            E.cover('missing')
    else:
        E.check('returns', out.kind == 'ret')
        E.same('itself', out.v, text)
        E.cover('plain')


def env_fn(E):
    f = E.uf('env', 'str')
    E.assume_contract(ROOT._replace_envs_str, lambda self, s: f(s))
    if not E.symbolic:
        E.swap(ROOT, _replace_envs_str=lambda self, s: f(s))

    def again(v):
        if isinstance(v, dict):
            return {k: again(x) for k, x in v.items()}
        if isinstance(v, list):
            return [again(x) for x in v]
        return f(v) if type(v) is str else v
    return f, again


@contract('C22', 'environ.dict')
def _(E):
    """Every text value is replaced, at every depth; keys and other values
    stay."""
    f, again = env_fn(E)
    src = E.dict('conf')
    fs = by_contract(E, *RE)
    out = E.body(ROOT._replace_envs_dict, object.__new__(ROOT), src)
    E.check('returns', out.kind == 'ret')
    want = {}
    for k, v in src.items():
        want[k] = nested(E, fs, *RE, f, v, again)
    E.same('values', out.v, want)


@contract('C22', 'environ.list')
def _(E):
    f, again = env_fn(E)
    src = E.list('conf', lambda e: e.any('v'))
    fs = by_contract(E, *RE)
    out = E.body(ROOT._replace_envs_list, object.__new__(ROOT), src)
    E.check('returns', out.kind == 'ret')
    E.same('items', out.v, [nested(E, fs, *RE, f, x, again) for x in src])


# ----------------------------------------------------------- whole file
def rnd_conf(E, n, d):
    k = E.choice(n, ['s', 's', 'e', 'd', 'l'] if d else ['s', 'e'])
    if k == 's':
        return E.choice(n + 's', [None, True, 0, 2.5, '', 'text', "environ['x", 'x.y'])
    if k == 'e':
        return E.choice(n + 'e', ["environ['C22_A']", 'environ["C22_B"]'])
    if k == 'l':
        return [rnd_conf(E, f'{n}{i}', d - 1) for i in range(E.int(n + 'n', 0, 3))]
    keys = ['aKey', 'b_key', 'Cc', 'deepKeyTwo', '0']
    return {keys[i]: rnd_conf(E, f'{n}{i}', d - 1) for i in range(E.int(n + 'n', 0, 5))}


ENV = {'C22_A': 'alpha', 'C22_B': ''}
SNAKE = {'aKey': 'a_key', 'b_key': 'b_key', 'Cc': 'cc', 'deepKeyTwo': 'deep_key_two', '0': '0'}


def expect(c):
    if isinstance(c, dict):
        return {SNAKE[k]: expect(v) for k, v in c.items()}
    if isinstance(c, list):
        return [expect(v) for v in c]
    return {"environ['C22_A']": 'alpha', 'environ["C22_B"]': ''}.get(c, c) if isinstance(c, str) else c


def paths(c, p=()):
    yield p, c
    if isinstance(c, dict):
        for k, v in c.items():
            yield from paths(v, p + (k,))
    if isinstance(c, list):
        for i, v in enumerate(c):
            yield from paths(v, p + (str(i),))


def plain(x):
    return x._conf if isinstance(x, UserConf) else x


@contract('C22', 'file', native=True, n=400)
def _(E):
    """A whole config.json, in a scratch directory: every key path gives the
    expected value, other paths give nothing."""
    conf = {k: rnd_conf(E, 'c' + k, 3) for k in ('aKey', 'b_key', 'deepKeyTwo')}
    d = tempfile.mkdtemp()
    try:
        with open(d + '/config.json', 'w') as f:
            json.dump(conf, f)
        E.swap(U, getcwd=lambda: d, environ=dict(ENV))
        root = ROOT()
        want = expect(conf)
        for p, v in paths(want):
            if p and all('.' not in k for k in p):
                got = root.get('.'.join(p))
                E.check('the value at the path', plain(got) == v and (
                    type(got) is UserConf) is isinstance(v, (list, dict)), detail=f'{p} {got}')
                E.check('subscript', plain(root['.'.join(p)]) == v)
                if len(p) > 1:
                    E.check('step by step', plain(root.get(p[0]).get('.'.join(p[1:]))) == v)
                if isinstance(v, dict):
                    E.check('nothing elsewhere', root.get('.'.join(p + ('nokey',))) is None)
                elif isinstance(v, list):
                    E.check('nothing elsewhere', root.get('.'.join(p + (str(len(v)),))) is None)
                else:
                    E.check('nothing below', root.get('.'.join(p + ('k',))) is None)
        E.check('nothing elsewhere', root.get('no_key') is None and root.get('no_key.a') is None)
        os.remove(d + '/config.json')
        E.check('no file', ROOT().get('a_key') is None)
    finally:
        shutil.rmtree(d)


class File:
    def __init__(self, filename, data):
        self.filename, self.data = filename, data

    def save(self, path):
        with open(path, 'wb') as f:
            f.write(self.data)


class UploadFile(File):
    @property
    def file(self):
        return self

    def read(self):
        return self.data


@contract('C22', 'uploads', native=True, n=60)
def _(E):
    """Uploads to the local file system: a new file in the public directory,
    with the data and the lower-case extension, at the URL given back; the
    uploader is the configured one, made once."""
    d = tempfile.mkdtemp()
    try:
        sub = E.choice('dir', ['img', 'a/b'])
        url = E.choice('url', ['http://x', ''])
        conf = {'uploaders': {'pic': {'client': 'localfs', 'config': {'dir': sub, 'url': url}},
                              's': {'client': 's3', 'config': {}}, 'o': {'client': 'alioss', 'config': {'a': 1}},
                              'bad': {'client': 'ftp', 'config': {}}, 'noconf': {'client': 's3'},
                              'noclient': {'config': {}}}}
        E.swap(UP, uconf=lambda: UserConf(conf), getcwd=lambda: d, _uploaders={})
        u = UP.request_uploader('pic')
        E.check('once', UP.request_uploader('pic') is u and type(u) is UP.LocalFSUploader)
        E.check('kinds', type(UP.request_uploader('s')) is UP.S3Uploader
                and type(UP.request_uploader('o')) is UP.AliOSSUploader)
        for n in ('bad', 'noconf', 'noclient', 'unknown'):
            out = E.call(UP.request_uploader, n)
            E.check('reported', out.kind == 'exc' and isinstance(out.v, ValueError), detail=n)
        ext = E.choice('ext', ['.PNG', '.jpg', '', '.tar.GZ'])
        seen = set()
        for i in range(3):
            data = bytes([i]) * 5
            f = E.choice(f'kind{i}', [File, UploadFile])(E.choice('stem', ['a', 'x/../y', '..']) + ext, data)
            got = u.upload(f)
            E.check('url', got.startswith(f'{url}/public/{sub}/'), detail=got)
            name = got[len(f'{url}/public/{sub}/'):]
            low = '' if f.filename in ('..',) else os.path.splitext(f.filename)[1].lower()
            E.check('name', '/' not in name and name.endswith(low), detail=name)
            E.check('new', name not in seen)
            seen.add(name)
            with open(f'{d}/public/{sub}/{name}', 'rb') as g:
                E.check('data', g.read() == data)
        E.check('nothing else', sorted(os.listdir(f'{d}/public/{sub}')) == sorted(seen)
                and sum(len(x[2]) for x in os.walk(d)) == 3)
    finally:
        shutil.rmtree(d)
