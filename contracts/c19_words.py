"""C19: every declaration word adds exactly its rule and its mark."""
from __future__ import annotations
import dataclasses
from datetime import date, datetime, timedelta, timezone
from contracts.base import *
from jsonclasses import modifiers as MM
from jsonclasses.types import Types, types
from jsonclasses.fdef import (FDef, FType, FSubtype, FStore, ReadRule, WriteRule, Nullability, Strictness,
                              DeleteRule, EnumInput, EnumOutput, Queryability, CopyBehavior)
from jsonclasses.jfield import JField
from jsonclasses.jconf import JConf
from jsonclasses.keypath import camelize_key, underscore_key, reference_key
from jsonclasses.cdef import CDef
from jsonclasses.modifiers.modifier import Modifier
from contracts.c20_enum import Col

STANDINS = True     # some objects here only have what the code is known to ask


def M_(n):
    return getattr(MM, n + 'Modifier')


f0, f1, f2, f3, f4 = (lambda: 1), (lambda a: a), (lambda a, b: a), (lambda a, b, c: a), (lambda a, b, c, d: a)
T1 = types.str

# word -> (argument kinds, rules). 'v': any value; 'fN': a function of N parameters; 't': a Types.
PLAIN = {
    'invalid': ['Invalid'], 'primary': ['Reset', 'Primary'], 'readonly': ['Readonly'], 'writeonly': ['Writeonly'],
    'readwrite': ['Readwrite'], 'writeonce': ['Writeonce'], 'writenonnull': ['WriteNonnull'],
    'internal': ['Readonly', 'Writeonly'], 'temp': ['Temp'], 'queryable': ['Queryable'],
    'unqueryable': ['Unqueryable'], 'embedded': ['Embedded'], 'nocopy': ['NoCopy'], 'linkto': ['LinkTo'],
    'nullify': ['Nullify'], 'cascade': ['Cascade'], 'deny': ['Deny'], 'str': ['Str'], 'len': ['Eager', 'Len'],
    'inverse': ['Eager', 'Inverse'], 'wrapintolist': ['WrapIntoList'], 'sqrt': ['Eager', 'Sqrt'], 'url': ['Url'],
    'digit': ['Digit'], 'alpha': ['Alpha'], 'numeric': ['Numeric'], 'email': ['Email'], 'hexcolor': ['HexColor'],
    'securepw': ['Securepw'], 'alnum': ['Alnum'], 'int': ['Int'], 'odd': ['Odd'], 'even': ['Even'],
    'float': ['Float'], 'negative': ['Negative'], 'positive': ['Positive'], 'nonnegative': ['Nonnegative'],
    'nonpositive': ['Nonpositive'], 'bool': ['Bool'], 'date': ['Date'], 'datetime': ['Datetime'],
    'tobosec': ['Eager', 'ToBoSec'], 'tobomin': ['Eager', 'ToBoMin'], 'tobohour': ['Eager', 'ToBoHour'],
    'tonextsec': ['Eager', 'ToNextSec'], 'tonextmin': ['Eager', 'ToNextMin'], 'tonexthour': ['Eager', 'ToNextHour'],
    'tonextyear': ['Eager', 'ToNextYear'], 'tonextmon': ['Eager', 'ToNextMon'], 'tonextday': ['Eager', 'ToNextDay'],
    'toboyear': ['Eager', 'ToBoYear'], 'tobomon': ['Eager', 'ToBoMon'], 'toboday': ['Eager', 'ToBoDay'],
    'inputall': ['InputAll'], 'inputlname': ['InputLname'], 'inputname': ['InputName'],
    'inputvalue': ['InputValue'], 'outputlname': ['OutputLname'], 'outputname': ['OutputName'],
    'outputvalue': ['OutputValue'], 'strict': ['Strict'], 'any': ['Any'], 'required': ['Required'],
    'nullable': ['Nullable'], 'present': ['Present'], 'trim': ['Eager', 'Trim'], 'totitle': ['Eager', 'ToTitle'],
    'tocap': ['Eager', 'ToCap'], 'tolower': ['Eager', 'ToLower'], 'toupper': ['Eager', 'ToUpper'],
    'tolist': ['Eager', 'ToList'], 'tobool': ['Eager', 'ToBool'], 'tofloat': ['Eager', 'ToFloat'],
    'toint': ['Eager', 'ToInt'], 'tostr': ['Eager', 'ToStr'], 'salt': ['Eager', 'Salt'], 'round': ['Eager', 'Round'],
    'ceil': ['Eager', 'Ceil'], 'floor': ['Eager', 'Floor'], 'abs': ['Eager', 'Abs'],
    'asopd': ['Asopd'], 'nonnull': ['Nonnull'], 'mongoid': ['MongoId'], 'authidentity': ['AuthIdentity'],
    'passin': ['Eager', 'Passin'], 'this': ['This'], 'isthis': ['IsThis'], 'getop': ['GetOp'],
}
# word: (kinds, [(rule, argument positions or constants)])
CALLS = {
    'linkedby': 'v LinkedBy', 'linkedthru': 'v LinkedThru', 'linkedin': 'v LinkedIn', 'referrer': 'v Referrer',
    'referee': 'v Referee', 'match': 'v Match', 'oneof': 'v OneOf', 'minlength': 'v Minlength',
    'maxlength': 'v Maxlength', 'length': 'vv Length', 'add': 'v Eager Add', 'sub': 'v Eager Sub',
    'mul': 'v Eager Mul', 'pow': 'v Eager Pow', 'div': 'v Eager Div', 'mod': 'v Eager Mod', 'map': '1 Eager Map',
    'filter': '1 Eager Filter', 'hasprefix': 'v HasPrefix', 'hassuffix': 'v HasSuffix',
    'isprefixof': 'v IsPrefixOf', 'issuffixof': 'v IsSuffixOf', 'insertat': 'vv Eager InsertAt',
    'prepend': 'v Eager Prepend', 'append': 'v Eager Append', 'upperbond': 'v Eager Upperbond',
    'lowerbond': 'v Eager Lowerbond', 'min': 'v Min', 'max': 'v Max', 'lte': 'v Max', 'gte': 'v Min', 'lt': 'v Lt',
    'gt': 'v Gt', 'range': 'vv Range', 'before': 'v Before', 'after': 'v After', 'fmtd': 'v FormatDatetime',
    'enum': 'e Enum', 'listof': 't ListOf', 'dictof': 't DictOf', 'objof': 's InstanceOf', 'union': 'u Union',
    'presentwith': 'v PresentWith', 'presentwithout': 'v PresentWithout', 'validate': '1 Validate', 'v': '1 Validate',
    'vmsg': '1v Validate', 'compare': '2 Reset Compare', 'default': 'v Default', 'truncate': 'v Eager Truncate',
    'padstart': 'vv Eager PadStart', 'padend': 'vv Eager PadEnd', 'replace': 'vv Eager Replace',
    'replacer': 'vv Eager Replacer', 'split': 'v Eager Split', 'join': 'v Eager Join',
    'transform': '1 Eager Transform', 't': '1 Eager Transform', 'fmt': '1 Fmt', 'uploader': '1 Eager Uploader',
    'asop': '1 Asop', 'setonsave': '0 Preserialize SetOnSave', 'fsetonsave': '0 Preserialize FSetOnSave',
    'onsave': '0 OnSave', 'onupdate': '2 Reset OnUpdate', 'onwrite': '1 OnWrite', 'authby': 't AuthBy',
    'canc': '1 CanC', 'canu': '1 CanU', 'canw': '1 CanC CanU', 'canr': '1 CanR', 'checkpw': 't Checkpw',
    'randomdigits': 'v RandomDigits', 'randomalnums': 'v RandomAlnums', 'randomalnumpuncs': 'v RandomAlnumpuncs',
    'randomint': 'vv RandomInt', 'randomfloat': 'vv Eager RandomFloat', 'crossfetch': 'vvv CrossFetch',
    'fval': 'v FVal', 'fobj': 'v FObj', 'eq': 'v Eq', 'neq': 'v Neq', 'at': 'v At', 'assign': 'sw Assign',
    'oneisvalid': 'u OneIsValid', 'isobj': 't IsObj', 'isobjof': 'v IsObjOf', 'getter': '1 Getter',
    'setter': '2 Setter', 'reverse': '- Eager Reverse',
}
INDEX = {'index': (False,), 'unique': (True,), 'cindex': (False, 's'), 'cunique': (True, 's')}
WORDS = sorted(PLAIN) + sorted(CALLS) + sorted(INDEX)


def argument(E, k, n):
    if k == 'v':
        return E.any(f'a{n}')
    if k == 'w':
        return E.any(f'a{n}', ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date'))
    if k == 's':
        return E.choice(f's{n}', ['key', 'other'])
    if k == 'e':
        return E.choice(f'e{n}', [Col, 'Col'])
    if k == 't':
        return E.choice(f't{n}', [types.str, types.int.required])
    if k == 'u':
        return E.choice(f'u{n}', [[types.str], [types.int, types.str.required]])
    return [f0, f1, f2, f3][int(k)]


def word(E, w, base, arg=argument):
    """The declaration, the rules it should add, and its arguments."""
    if w in PLAIN:
        return getattr(base, w), [M_(r)() for r in PLAIN[w]], ()
    if w in INDEX:
        u, *n = INDEX[w]
        if not n:
            return getattr(base, w), [MM.IndexModifier(u)], ()
        a = arg(E, 's', 0)
        return getattr(base, w)(a), [MM.IndexModifier(u, a)], (a,)
    kinds, *rules = CALLS[w].split()
    args = [arg(E, k, i) for i, k in enumerate(kinds) if k != '-']
    if w in ('length', 'crossfetch') and E.choice('optional', [False, True]):
        args = args[:-1]
    want = [M_(r)() if r in ('Eager', 'Reset', 'Preserialize') else M_(r)(*args) for r in rules]
    return getattr(base, w)(*args), want, tuple(args)


BASES = {'empty': lambda: types, 'text': lambda: types.str.maxlength(3), 'links': lambda: types.listof('X').linkto,
         'marks': lambda: types.cindex('p').cunique('q').cascade.writeonly.required.any,
         'fn': lambda: types.getter(f1).authidentity.nonnull}


def rules(t):
    return list(t.modifier.vs)


def equal_state(E, a, b):
    if type(a) is not type(b):
        return False
    x, y = vars(a), vars(b)
    if sorted(x) != sorted(y):
        return False
    for k in x:
        if not (x[k] is y[k] or E.is_same(x[k], y[k])):
            return False
    return True


def outcome(E, f, *a):
    out = E.call(f, *a)
    return (out.kind, type(out.v) if out.kind == 'exc' else out.v)


def same_rules(E, got, want, args, what):
    """The same rules in the same order with the same parameters. Rules of
    other classes have to act alike (natively, on probe values)."""
    if len(got) == len(want):
        alike = [equal_state(E, g, w) for g, w in zip(got, want)]
        if all(alike):
            E.check('the rule of the word', True)
            return
    if E.symbolic:
        E.check('the rule of the word', False, incomplete=True, detail=what)
        return
    a, b = MM.ChainedModifier(got), MM.ChainedModifier(want)
    for v in (None, True, 0, 1, -1, 2.5, '', 'a', 'Abc d', '12', [], [1, 2], ['a'], {}, {'a': 1}, date(2020, 1, 2),
              datetime(2020, 1, 2, 3, 4, 5), *args, E.any('probe')):
        for new in (True, False):
            o = E.obj(is_new=new, modified_fields=('k',) if not new else (), previous_values={'k': 1}, k=v)
            for stage in ('transform', 'validate', 'tojson', 'serialize'):
                x = outcome(E, getattr(a, stage), mkctx(E, v, root=o, operator=E.obj(name='op')))
                y = outcome(E, getattr(b, stage), mkctx(E, v, root=o, operator=E.obj(name='op')))
                E.check('the rule of the word', x[0] == y[0] and E.is_same(x[1], y[1]), detail=f'{what} {stage} {v!r}')
    stages = (MM.EagerModifier, MM.PreserializeModifier)
    E.check('the stage of the word', [type(g) for g in got if isinstance(g, stages)]
            == [type(g) for g in want if isinstance(g, stages)], detail=what)


@contract('C19', 'rules', n=1500, weight=3)
def _(E):
    """A word appends its rule with its arguments after the rules there are,
    and leaves what it is applied to alone."""
    w = E.choice('word', WORDS)
    base = BASES[E.choice('base', sorted(BASES))]()
    E.swap(Modifier, check_packages=lambda self: None)
    before = rules(base)
    t, want, args = word(E, w, base)
    E.check('a declaration', type(t) is Types and t is not base)
    got = rules(t)
    k = len(before)
    E.check('earlier rules stay', len(got) >= k and all([got[i] is before[i] for i in range(k)]), detail=w)
    same_rules(E, got[k:], want, args, w)
    E.check('the original is left alone', len(rules(base)) == k and all([x is y for x, y in zip(rules(base), before)]))


SIMPLE = ('ftype', 'fsubtype', 'fstore', 'getter', 'setter', 'primary', 'index', 'cindex', 'unique', 'cunique',
          'required', 'raw_enum_class', 'enum_input', 'enum_output', 'raw_item_types', 'raw_inst_types',
          'force_set_on_save', 'foreign_key', 'use_join_table', 'join_table_cls', 'join_table_referrer_key',
          'join_table_referee_key', 'delete_rule', 'read_rule', 'write_rule', 'collection_nullability',
          'item_nullability', 'strictness', 'has_eager_modifier', 'has_reset_modifier', 'has_preserialize_modifier',
          'requires_operator_assign', 'operator_assign_transformer', 'queryability', 'copy_behavior',
          'auth_identity', 'auth_by', 'auth_by_checker')
LISTS = ('cindex_names', 'cunique_names')
FT = {'str': FType.STR, 'int': FType.INT, 'float': FType.FLOAT, 'bool': FType.BOOL, 'date': FType.DATE,
      'datetime': FType.DATETIME, 'any': FType.ANY, 'listof': FType.LIST, 'dictof': FType.DICT,
      'objof': FType.INSTANCE, 'union': FType.UNION, 'enum': FType.ENUM}
CONST = {
    'primary': dict(primary=True, has_reset_modifier=True), 'readonly': dict(write_rule=WriteRule.NO_WRITE),
    'writeonly': dict(read_rule=ReadRule.NO_READ),
    'readwrite': dict(read_rule=ReadRule.UNLIMITED, write_rule=WriteRule.UNLIMITED),
    'writeonce': dict(write_rule=WriteRule.WRITE_ONCE), 'writenonnull': dict(write_rule=WriteRule.WRITE_NONNULL),
    'internal': dict(read_rule=ReadRule.NO_READ, write_rule=WriteRule.NO_WRITE), 'temp': dict(fstore=FStore.TEMP),
    'index': dict(index=True), 'unique': dict(unique=True), 'cindex': dict(cindex=True), 'cunique': dict(cunique=True),
    'queryable': dict(queryability=Queryability.QUERYABLE),
    'unqueryable': dict(queryability=Queryability.UNQUERYABLE), 'embedded': dict(fstore=FStore.EMBEDDED),
    'nocopy': dict(copy_behavior=CopyBehavior.NOCOPY), 'nullify': dict(delete_rule=DeleteRule.NULLIFY),
    'cascade': dict(delete_rule=DeleteRule.CASCADE), 'deny': dict(delete_rule=DeleteRule.DENY),
    'strict': dict(strictness=Strictness.STRICT), 'required': dict(required=True), 'present': dict(required=True),
    'nullable': dict(item_nullability=Nullability.NULLABLE), 'nonnull': dict(collection_nullability=Nullability.NONNULL),
    'inputall': dict(enum_input=EnumInput.ALL), 'outputname': dict(enum_output=EnumOutput.NAME),
    'outputlname': dict(enum_output=EnumOutput.LOWERCASE_NAME), 'outputvalue': dict(enum_output=EnumOutput.VALUE),
    'asopd': dict(requires_operator_assign=True), 'mongoid': dict(fsubtype=FSubtype.MONGOID),
    'authidentity': dict(auth_identity=True), 'fsetonsave': dict(force_set_on_save=True, has_preserialize_modifier=True),
    'setonsave': dict(has_preserialize_modifier=True), 'compare': dict(has_reset_modifier=True),
    'onupdate': dict(has_reset_modifier=True), 'uploader': dict(fsubtype=FSubtype.FILE, has_eager_modifier=True),
}
ENUMIN = {'inputname': EnumInput.NAME, 'inputlname': EnumInput.LOWERCASE_NAME, 'inputvalue': EnumInput.VALUE}


def effects(w, args, b):
    """The marks a word sets, given its arguments and the marks before."""
    e = dict(CONST.get(w, {}))
    if w in FT:
        e['ftype'] = FT[w]
    if 'Eager' in (PLAIN.get(w) or CALLS.get(w, '').split()):
        e['has_eager_modifier'] = True
    if w in ('listof', 'dictof'):
        e['raw_item_types'] = args[0]
    if w == 'listof' and (b['fstore'] == FStore.LOCAL_KEY or b['foreign_key'] is not None):
        if b['collection_nullability'] is Nullability.UNDEFINED:
            e['collection_nullability'] = Nullability.NONNULL
    if w == 'objof':
        e['raw_inst_types'] = args[0]
    if w == 'enum':
        e['raw_enum_class'] = args[0]
        if b['enum_input'] is None:
            e['enum_input'] = EnumInput.NAME
        if b['enum_output'] is None:
            e['enum_output'] = EnumOutput.NAME
    if w in ENUMIN:
        e['enum_input'] = ENUMIN[w] if b['enum_input'] is None else b['enum_input'] | ENUMIN[w]
    if w in ('linkto', 'linkedby', 'linkedthru', 'linkedin'):
        e['fstore'] = FStore.LOCAL_KEY if w == 'linkto' else FStore.FOREIGN_KEY
        if b['delete_rule'] is None:
            e['delete_rule'] = DeleteRule.NULLIFY
        if w != 'linkedin' and b['ftype'] == FType.LIST and b['collection_nullability'] is Nullability.UNDEFINED:
            e['collection_nullability'] = Nullability.NONNULL
        if w in ('linkedby', 'linkedthru'):
            e['foreign_key'] = args[0]
        if w == 'linkedin':
            e['join_table_cls'] = args[0]
        if w != 'linkto':
            e['use_join_table'] = w != 'linkedby'
    if w == 'referrer':
        e['join_table_referrer_key'] = args[0]
    if w == 'referee':
        e['join_table_referee_key'] = args[0]
    if w in ('getter', 'setter'):
        e['fstore'] = FStore.CALCULATED
        e[w] = args[0]
    if w == 'asop':
        e['requires_operator_assign'] = True
        e['operator_assign_transformer'] = args[0]
    if w == 'authby':
        e['auth_by'] = True
        e['auth_by_checker'] = args[0]
    return e


def marks(fdef):
    return {n: getattr(fdef, n) for n in SIMPLE}


def names(fdef):
    return {n: list(getattr(fdef, n)) for n in LISTS}


def check_marks(E, w, args, b, bn, fdef, same):
    e = effects(w, args, b)
    a = marks(fdef)
    for n in SIMPLE:
        want = e[n] if n in e else b[n]
        if n in e or a[n] is not want:
            E.check('mark ' + n, same(a[n], want), detail=w + ' ' + n)
    an = names(fdef)
    for n in LISTS:
        E.check('index names', an[n] == bn[n] + ([args[0]] if w + '_names' == n else []), detail=w)


KEEP = ('_cdef', '_unresolved', '_unresolved_name', '_enum_input', '_queryability', '_copy_behavior')


CONDITIONAL = ('linkto', 'linkedby', 'linkedthru', 'linkedin', 'listof', 'enum', 'inputname', 'inputlname',
               'inputvalue', 'inputall')


def some_fdef(E, w):
    """A field definition with arbitrary marks."""
    f = FDef()
    if E.choice('state', ['arbitrary', 'fresh']) == 'arbitrary':
        for k, v in list(vars(f).items()):
            if k in KEEP:
                continue
            setattr(f, k, [E.opaque(k + '0')] if isinstance(v, list) else E.bool(k) if isinstance(v, bool)
                    else E.opaque(k))
    pre = E.choice('pre', [''] if w not in CONDITIONAL else ['', 'listof', 'linkto', 'linkedby', 'undefined', 'undefined listof', 'undefined linkto',
                           'undefined linkedby', 'inputname', 'outputvalue', 'cascade'])
    for p in pre.split():
        if p == 'undefined':
            f._collection_nullability = Nullability.UNDEFINED
        elif p == 'listof':
            MM.ListOfModifier('X').define(f)
            if 'undefined' in pre:
                f._collection_nullability = Nullability.UNDEFINED
        elif p == 'linkedby':
            MM.LinkedByModifier('k').define(f)
        else:
            M_({'linkto': 'LinkTo', 'inputname': 'InputName', 'outputvalue': 'OutputValue', 'cascade': 'Cascade'}[p])().define(f)
    return f


@contract('C19', 'marks', n=1500, weight=3)
def _(E):
    """A word's rules set the word's marks on any field definition, and no
    other mark."""
    w = E.choice('word', WORDS)
    E.swap(Modifier, check_packages=lambda self: None)
    t, want, args = word(E, w, types, lambda E, k, n: E.any(f'a{n}') if k == 'v' else pick(E, k, n))
    f = some_fdef(E, w)
    b, bn = marks(f), names(f)
    for m in rules(t):
        m.define(f)
    check_marks(E, w, args, b, bn, f, lambda x, y: x is y or E.is_same(x, y))


def fixed(E, k, n):
    return argument(E, 's' if k in 'vw' else k, n)


@contract('C19', 'chains', n=1500, weight=2)
def _(E):
    """The declaration a word makes has the marks of the one it is applied
    to, changed by the word; the original keeps its own."""
    w = E.choice('word', WORDS)
    base = BASES[E.choice('base', sorted(BASES))]()
    E.swap(Modifier, check_packages=lambda self: None)
    b, bn = marks(base.fdef), names(base.fdef)
    t, want, args = word(E, w, base, fixed)

    def same(x, y):
        return x is y or isinstance(x, Types) and rules(x) == rules(y) or x == y
    check_marks(E, w, args, b, bn, t.fdef, same)
    a, an = marks(base.fdef), names(base.fdef)
    E.check('the original keeps its marks', all([a[n] is b[n] for n in SIMPLE]) and an == bn, detail=w)


PARAMS = {'getter': (1, 1), 'setter': (2, 2), 'asop': (1, 3), 'compare': (2, 3), 'fmt': (1, 2), 'transform': (1, 2),
          't': (1, 2), 'validate': (1, 2), 'v': (1, 2), 'uploader': (1, 2), 'setonsave': (0, 1),
          'fsetonsave': (0, 1), 'onsave': (0, 1), 'onwrite': (0, 2), 'onupdate': (0, 3)}


@contract('C19', 'functions', covers=('refused', 'accepted'))
def _(E):
    """A function with a parameter count the word cannot call is refused at
    the declaration."""
    w = E.choice('word', sorted(PARAMS))
    n = E.int('n', 0, 4)
    f = [f0, f1, f2, f3, f4][n]
    out = E.call(getattr(types, w), f)
    ok = PARAMS[w][0] <= n <= PARAMS[w][1]
    if out.kind == 'exc':
        E.check('refused with ValueError', isinstance(out.v, ValueError) and not ok, detail=w)
        E.cover('refused')
    else:
        E.check('accepted', ok, detail=f'{w} {n}')
        E.cover('accepted')
    bad = E.choice('bad', ['getter', 'setter', 'asop', 'compare'])
    out = E.call(getattr(types, bad), E.choice('notfn', [None, 1, 'x']))
    E.check('no function', out.kind == 'exc' and isinstance(out.v, ValueError))


FTS = [FType.STR, FType.LIST, FType.INSTANCE, FType.DICT]


@contract('C19', 'derived')
def _(E):
    """Questions about a field follow from its marks."""
    ft = E.choice('ftype', FTS)
    fs = E.choice('fstore', list(FStore))
    it = E.choice('item', [None, FType.STR, FType.INSTANCE])
    its = E.choice('itemstore', [FStore.EMBEDDED, FStore.LOCAL_KEY])
    f = FDef()
    f._ftype, f._fstore = ft, fs
    f._primary = p = E.bool('primary')
    f._use_join_table = j = E.choice('join', [None, False, True])
    if it is not None:
        g = FDef()
        g._ftype, g._fstore = it, its
        if it is FType.INSTANCE:
            g._raw_inst_types = 'X'
        f._raw_item_types = f._resolved_item_types = E.obj(fdef=g)
    E.assume(ft is not FType.LIST or it is not None)
    ref = fs in (FStore.LOCAL_KEY, FStore.FOREIGN_KEY)
    E.iff('is_ref', f.is_ref, ref)
    E.iff('is_inst', f.is_inst, ft is FType.INSTANCE or ft is FType.LIST and it is FType.INSTANCE)
    E.iff('has_linked', f.has_linked, ref or ft is FType.LIST and its is FStore.LOCAL_KEY)
    x = JField(E.obj(name='C'), 'n', None, E.obj(fdef=f, modifier=1))
    one, many, loc, far = ft is FType.INSTANCE, ft is FType.LIST, fs is FStore.LOCAL_KEY, fs is FStore.FOREIGN_KEY
    E.iff('is_primary', x.is_primary, p)
    E.iff('is_inst_field', x.is_inst_field, one)
    E.iff('is_list_field', x.is_list_field, many)
    E.iff('is_list_inst_field', x.is_list_inst_field, many and it is FType.INSTANCE)
    E.iff('is_foreign_key_store', x.is_foreign_key_store, far)
    E.iff('is_local_key_store', x.is_local_key_store, loc)
    E.iff('is_foreign_one_ref', x.is_foreign_one_ref, one and far)
    E.iff('is_foreign_many_ref', x.is_foreign_many_ref, many and far)
    E.iff('is_local_one_ref', x.is_local_one_ref, one and loc)
    E.iff('is_local_many_ref', x.is_local_many_ref, many and loc)
    E.iff('is_join_table_ref', x.is_join_table_ref, j is True)


@contract('C19', 'field')
def _(E):
    """A field has the names its class's strategies make."""
    key, ref = E.uf('key', 'str'), E.uf('ref', 'str')
    n = E.str('name')
    d = E.any('default')
    cdef = E.obj(jconf=E.obj(output_key_strategy=key, ref_name_strategy=ref))
    fdef, mod = E.opaque('fdef'), E.opaque('modifier')
    t = E.obj(fdef=fdef, modifier=mod)
    x = JField(cdef, n, d, t)
    E.same('name', x.name, n)
    E.same('default', x.default, d)
    E.check('types', x.types is t and x.fdef is fdef and x.modifier is mod and x.cdef is cdef)
    E.same('json name', x.json_name, key(n))


FIELDS = {
    'plain': (lambda: types.str, ()),
    'primary': (lambda: types.str.primary, ('primary',)),
    'calc': (lambda: types.str.getter(f1), ('calc',)),
    'setter': (lambda: types.str.getter(f1).setter(f2), ('calc', 'setter')),
    'nullify': (lambda: types.objof('X').linkedby('y').nullify, ('nullify',)),
    'deny': (lambda: types.objof('X').linkedby('y').deny, ('deny',)),
    'cascade': (lambda: types.listof('X').linkedby('y').cascade, ('cascade',)),
    'unique': (lambda: types.str.unique, ('unique',)),
    'asop': (lambda: types.str.asop(f1), ('operator',)),
    'asopd': (lambda: types.objof('X').linkto.asopd.unique, ('operator', 'unique', 'nullify')),
    'authid': (lambda: types.str.unique.authidentity, ('unique', 'authid')),
    'authby': (lambda: types.str.authby(types.eq(types.passin)), ('authby',)),
    'all': (lambda: types.str.unique.asop(f1).authidentity.authby(types.eq('a')).deny,
            ('unique', 'operator', 'authid', 'authby', 'deny')),
}


@contract('C19', 'lists', weight=2)
def _(E):
    """A class definition lists its fields, and those of each mark, in the
    order they are declared, and finds them by name."""
    n = E.choice('n', [1, 2, 3])
    kinds = [E.choice(f'k{i}', sorted(FIELDS) if i < 2 else ['plain', 'all', 'calc']) for i in range(n)]
    names = ['b', 'a', 'c_d'][:n]
    ts = [FIELDS[k][0]() for k in kinds]
    ns = dict(zip(names, ts))
    plain = E.choice('defaulted', [True, False])
    if plain:
        ns['z'] = 5
        names = names + ['z']
    ns['__annotations__'] = {x: ('int' if x == 'z' else 'Any') for x in names}
    conf = JConf(cgraph='c19', output_key_strategy=camelize_key, input_key_strategy=underscore_key, strict_input=None,
                 ref_name_strategy=reference_key, validate_all_fields=None, abstract=None, reset_all_fields=None,
                 output_null=None, on_create=None, on_update=None, on_delete=None, can_create=None,
                 can_update=None, can_delete=None, can_read=None)
    cls = dataclasses.dataclass(init=False)(type('N', (), ns))
    c = CDef(cls, conf)
    E.check('class', c.cls is cls and c.name == 'N' and c.jconf is conf and conf.cls is cls)
    E.same('fields', [f.name for f in c.fields], names)
    for i in range(n):
        f = c.field_named(names[i])
        E.check('by name', f is c.fields[i] and f.cdef is c and f.types is ts[i] and f.default is None)
        E.check('the declaration knows its class', ts[i].fdef.cdef is c)
    if plain:
        E.check('default', c.field_named('z').default == 5 and c.field_named('z').fdef.ftype == FType.INT)

    def having(m):
        return [names[i] for i in range(n) if m in FIELDS[kinds[i]][1]]
    for m, l in (('calc', c.calc_fields), ('setter', c.setter_fields), ('deny', c.deny_fields),
                 ('nullify', c.nullify_fields), ('cascade', c.cascade_fields), ('unique', c.unique_fields),
                 ('operator', c.assign_operator_fields), ('authid', c.auth_identity_fields),
                 ('authby', c.auth_by_fields)):
        E.same('fields: ' + m, [f.name for f in l], having(m))
    E.same('calculated names', c.calc_field_names, having('calc'))
    E.same('setter names', c.setter_field_names, having('setter'))
    E.same('and again', [c.calc_field_names, c.setter_field_names], [having('calc'), having('setter')])
    pr = having('primary')
    E.check('primary', c.primary_field is (c.field_named(pr[-1]) if pr else None))
    out = E.call(c.field_named, 'no')
    E.check('an unknown name is reported', out.kind == 'exc' and isinstance(out.v, ValueError))


@contract('C19', 'times', native=True, n=60)
def _(E):
    """tscreated and tsupdated set the present time in UTC, of one kind that
    can be compared; umininterval compares them."""
    a = types.datetime.tscreated
    b = types.datetime.tsupdated
    v = E.choice('v', [None, datetime(2020, 1, 2, tzinfo=timezone.utc)])
    for t in (a, b):
        lo = datetime.now(timezone.utc)
        x = t.modifier.transform(mkctx(E, v))
        hi = datetime.now(timezone.utc)
        if v is not None:
            E.check('a given time stays', x is v)
        else:
            E.check('aware', x.tzinfo is not None and x.utcoffset() == timedelta(0), detail=repr(x))
            E.check('now', lo <= x <= hi)
    y = b.modifier.serialize(mkctx(E, v, parent=E.obj(is_new=False, modified_fields=('k',))))
    E.check('set on save', isinstance(y, datetime) and y.tzinfo is not None)
    gap = timedelta(seconds=E.int('gap', 1, 100))
    c = types.datetime.umininterval(gap)
    E.check('previous values are kept', c.fdef.has_reset_modifier)
    old = types.datetime.tsupdated.modifier.transform(mkctx(E, None))
    off = timedelta(seconds=E.int('off', 0, 150))
    p = E.obj(previous_values={'k': old})
    out = E.call(c.modifier.validate, mkctx(E, old + off, parent=p, root=p, owner=p))
    r = rejects(E, out)
    E.iff('interval', r, off < gap)


def pick(E, k, n):
    return {'v': 'w', 'w': 'w', 's': 'key', 'e': Col, 't': types.str, 'u': [types.str]}.get(k) or [f0, f1, f2, f3][int(k)]


@contract('C19', 'pairs', native=True, n=2)
def _(E):
    """All pairs of words: the rules and marks of the first, then of the
    second."""
    E.swap(Modifier, check_packages=lambda self: None)

    class Q:
        choice = staticmethod(lambda n, o: o[0])

    def same(x, y):
        return x is y or isinstance(x, Types) and isinstance(y, Types) and len(rules(x)) == len(rules(y)) or x == y
    for w in WORDS:
        t, _, _ = word(Q, w, types, pick)
        b, bn, k = marks(t.fdef), names(t.fdef), rules(t)
        for x in WORDS:
            u, want, args = word(Q, x, t, pick)
            g = rules(u)
            if g[:len(k)] != k or len(g) == len(k):
                E.check('rules', False, detail=f'{w} {x}')
            e = effects(x, args, b)
            a, an = marks(u.fdef), names(u.fdef)
            for n in SIMPLE:
                if not same(a[n], e[n] if n in e else b[n]):
                    E.check('marks', False, detail=f'{w} {x} {n}')
            for n in LISTS:
                if an[n] != bn[n] + ([args[0]] if x + '_names' == n else []):
                    E.check('index names', False, detail=f'{w} {x}')
    E.check('all pairs', True)
