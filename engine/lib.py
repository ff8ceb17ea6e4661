"""Summaries of the library functions the contracts are built from (std, cosmwasm-std, cw-storage-plus, cw-asset, ...).
Each entry: fn(I, st, F, args, dty) -> (state, value).  Keyed by the last two path segments, generics stripped."""
from fractions import Fraction
from terms import *
import terms as TM
import re

L = {}
def reg(*names):
    def d(f):
        for n in names: L[n] = f
        return f
    return d

def pure(*names):
    """register a pure function of fully dereferenced arguments"""
    def d(f):
        def w(I_, st, F, args, dty, f=f):
            return st, f(*[I_.full(st, a) for a in args])
        for n in names: L[n] = w
        return f
    return d

RESP = 'cosmwasm_std::Response'
SUB = 'cosmwasm_std::SubMsg'
COSMOS = 'cosmwasm_std::results::cosmos_msg::CosmosMsg'
WASM = 'cosmwasm_std::results::cosmos_msg::WasmMsg'
BANK = 'cosmwasm_std::results::cosmos_msg::BankMsg'
COIN = 'cosmwasm_std::coin::Coin'
ASSET = 'cw_asset::asset::AssetBase'
ASSETINFO = 'cw_asset::asset_info::AssetInfoBase'
CW20EXEC = 'cw20::msg::Cw20ExecuteMsg'

from interp import short, strip_generics

STORE = re.compile(r'(Snapshot|Indexed)?(Item|Map)::(save|update|replace|remove|push_back)$')
def call(I_, st, F, args, dty, argtys=None):
    n = F['n']
    k = short(n)
    f = L.get(k)
    if f is None:
        f = L.get('*::' + k.split('::')[-1])
    if f is not None:
        F = dict(F); F['argtys'] = argtys
        r = f(I_, st, F, args, dty)
        if args and STORE.match(k):
            ty = I_.full(st, args[0])
            if ty.op in ('item', 'map', 'mindex', 'adt'): I_.nstypes.setdefault(cns(ty), set()).add((k.split('::')[0], (I_.stack[-1] if I_.stack else '').lstrip('<').split('::')[0]) + tuple(F.get('a') or ()))
        if r is not None: return r
    # constructor functions
    c = ctor(F)
    if c is not None:
        aid, var, names = c
        if aid == RESULT and var == 'Err': return st, ERRV
        return st, adt(aid, var, names, args[:len(names)])
    # trait method without static resolution: devirtualise on the receiver
    r = devirt(I_, st, F, args)
    if r is not None: return r
    return unknown(I_, st, F, args, dty)

def ctor(F):
    base = strip_generics(F['id'])
    seg = base.rsplit('::', 1)
    for p in (F['id'], F['n'], strip_generics(F['n'])):
        s = p.rsplit('::', 1)
        if len(s) == 2:
            if s[0] in ADTS:
                for n, d, fs in ADTS[s[0]]['v']:
                    if n == s[1]: return s[0], n, tuple(f[0] for f in fs)
        if p in ADTS and not ADTS[p]['enum']:
            v = ADTS[p]['v'][0]
            return p, v[0], tuple(f[0] for f in v[2])
    return None

def devirt(I_, st, F, args):
    k = short(F['n']).split('::')
    cands = I_.prog.impls.get(tuple(k)) if len(k) == 2 else None
    if not cands or not args: return None
    self_ = I_.full(st, args[0])
    outs = []
    al = alts(self_)
    for g, v in al:
        p = AND(st.pc, g)
        if not p: continue
        tgt = None
        if v.op == 'adt':
            for ty, b in cands:
                if strip_generics(ty) == v.a[0] or ty.split('<')[0] == v.a[0]: tgt = b
        if tgt is None:
            return None
        s = st.fork(p) if len(al) > 1 else st
        outs.append(I_.call_body(s, tgt, args))
    return I_.join(outs)

def unknown(I_, st, F, args, dty):
    I_.unknown[short(F['n'])] = I_.unknown.get(short(F['n']), 0) + 1
    full = [I_.full(st, a) for a in args]
    r = mk('call', short(F['n']), *[x for x in full])
    for i, a in enumerate(args):
        if a.op == 'ptr':
            I_.ptr_write(st, a, mk('mut', short(F['n']), i, *full))
    return st, r

def known_const(c):
    n = c.get('n') or c.get('uneval')
    if n.endswith('::MAX'): return mk('call', 'MAX', S(n))
    return mk('k', n)

# ------------------------------------------------------------------ identity-like
OPTION_TY = ('core::option::Option', 'std::option::Option', 'Option<')
for n in ['Clone::clone', 'ToString::to_string', 'AsRef::as_ref', 'Borrow::borrow', 'ToOwned::to_owned', 'String::as_str', 'str::to_owned', 'str::to_string', 'str::as_str',
          'String::from', 'Addr::unchecked', 'Addr::as_str', 'Addr::into_string', 'Addr::to_string', 'Addr::as_ref', 'Addr::as_bytes', 'Uint128::u128', 'Uint64::u64', 'Uint128::new', 'Uint64::new', 'Into::into', 'From::from',
          'slice::to_vec', 'slice::into_vec', 'Box::new', 'hint::must_use', 'Timestamp::nanos', 'Timestamp::from_nanos', 'str::as_bytes', 'String::into_bytes', 'String::as_bytes', 'Vec::as_slice',
          'Vec::into_boxed_slice', 'boxed::box_assume_init_into_vec_unsafe', 'convert::identity', 'AsDynError::as_dyn_error', 'AsDisplay::as_display', 'Binary::to_vec', 'Binary::as_slice', 'Binary::from',
          'Deref::deref', 'IntoIterator::into_iter_', 'Iterator::cloned_', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Uint128::to_string', 'Cow::into_owned', 'str::trim_', 'str::into_string', 'String::into_boxed_str', 'Result::as_ref', 'Result::cloned', 'Result::copied',
          'Result::as_deref', 'Box::as_ref', 'Binary::new', 'AssetInfoBase::from', 'AssetBase::from', 'Iterator::by_ref_', 'black_box::black_box', 'hint::black_box', 'Result::iter_', 'Rc::new', 'Arc::new', 'Uint256::from', 'String::to_string']:
    def _id(I_, st, F, args, dty):
        v = I_.full(st, args[0])
        if dty is not None and v.op not in ('phi',):
            if dty.startswith('cosmwasm_std::results::cosmos_msg::CosmosMsg'): v = to_cosmos(v)
        if dty is not None and dty.startswith(OPTION_TY) and short(F['n']) in ('Into::into', 'From::from'):
            # a value becomes the option that has it
            t = (F.get('argtys') or [''])[0] or ''
            if t and not t.lstrip('&').startswith(OPTION_TY): v = Some(v)
        return st, v
    L[n] = _id

@reg('DepsMut::as_ref', 'DepsMut::branch', 'DerefMut::deref_mut', 'Option::as_mut_', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Box::as_mut', 'Vec::as_mut_slice')
def _ident(I_, st, F, args, dty):
    if short(F['n']).startswith('DepsMut'): return st, I_.full(st, args[0])
    return st, args[0]

@reg('Option::as_ref')
def _oar(I_, st, F, args, dty): return st, I_.full(st, args[0])

@reg('Option::as_mut', 'Option::as_deref_mut')
def _oam(I_, st, F, args, dty):
    p = args[0]
    if p.op == 'ptr':
        v = I_.full(st, p)
        g = is_variant(v, OPTION, 'Some')
        q = mk('ptr', p.a[0], p.a[1], p.a[2] + (('d', 'Some', OPTION), ('f', '0')))
        return st, phi([(AND(st.pc, g), Some(q)), (AND(st.pc, NOT(g)), NONE)])
    return st, p

@reg('Box::new_uninit')
def _bnu(I_, st, F, args, dty): return st, mk('uninit')

@reg('mem::take')
def _mt(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    I_.ptr_write(st, args[0], default_for(dty))
    return st, v
@reg('mem::replace', 'Option::replace_')
def _mr(I_, st, F, args, dty):
    v = I_.full(st, args[0]); I_.ptr_write(st, args[0], args[1]); return st, v
@reg('Option::take')
def _ot(I_, st, F, args, dty):
    v = I_.full(st, args[0]); I_.ptr_write(st, args[0], NONE); return st, v
@reg('Option::insert')
def _oi(I_, st, F, args, dty):
    I_.ptr_write(st, args[0], Some(args[1])); return st, args[1]
@reg('Option::replace')
def _or(I_, st, F, args, dty):
    v = I_.full(st, args[0]); I_.ptr_write(st, args[0], Some(args[1])); return st, v
@reg('mem::swap')
def _ms(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    I_.ptr_write(st, args[0], b); I_.ptr_write(st, args[1], a)
    return st, UNIT
@reg('mem::drop', 'drop::drop', 'Drop::drop', 'mem::forget')
def _md(I_, st, F, args, dty): return st, UNIT

def split_types(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '<([' ; d -= ch in '>)]'
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + ([cur.strip()] if cur.strip() else [])
def default_for(ty):
    if ty is None: return mk('call', 'default')
    t = ty
    if t.startswith(('alloc::vec::Vec', 'std::collections::hash::set', 'alloc::collections::btree::set')): return coll('vec' if 'Vec' in t else 'set', ())
    if t.startswith(('std::collections::hash::map', 'alloc::collections::btree::map')): return coll('map', ())
    if t.startswith('core::option::Option'): return NONE
    if t.startswith('alloc::string::String') or t == '&str': return S('')
    if t == 'bool': return BF
    if t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64', 'i128') or t.startswith(('cosmwasm_std::math', 'cosmwasm_std::timestamp', 'cosmwasm_std::Uint')): return ZERO
    if t == '()': return UNIT
    if t.startswith('('): return mk('tup', *[default_for(x) for x in split_types(t[1:-1])])
    if t.startswith('cosmwasm_std::results::response::Response'): return response(coll('vec', ()), NONE)
    k = t.split('<')[0]
    if k in ADTS and not ADTS[k]['enum']:
        fs = ADTS[k]['v'][0][2]
        return adt(k, ADTS[k]['v'][0][0], [f[0] for f in fs], [default_for(f[1]) for f in fs])
    return mk('call', 'default', S(t))

@reg('Default::default')
def _dd(I_, st, F, args, dty):
    t = dty or (F['a'][0] if F.get('a') else None)
    return st, default_for(t)

# ------------------------------------------------------------------ Try
@reg('Try::branch')
def _tb(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    ty = (F.get('a') or [''])[0]
    if ty.startswith(OPTION):
        g = is_variant(v, OPTION, 'Some')
        return st, phi([(AND(st.pc, g), adt(CF, 'Continue', ('0',), (getvf(v, 'Some', '0'),))), (AND(st.pc, NOT(g)), adt(CF, 'Break', ('0',), (NONE,)))])
    g = is_variant(v, RESULT, 'Ok')
    return st, phi([(AND(st.pc, g), adt(CF, 'Continue', ('0',), (getvf(v, 'Ok', '0'),))), (AND(st.pc, NOT(g)), adt(CF, 'Break', ('0',), (ERRV,)))])
@reg('FromResidual::from_residual')
def _fr(I_, st, F, args, dty):
    if dty and dty.startswith(OPTION): return st, NONE
    return st, ERRV
@reg('Try::from_output')
def _fo(I_, st, F, args, dty):
    return st, (Some if dty and dty.startswith(OPTION) else Ok)(args[0])

# ------------------------------------------------------------------ Option / Result
def osome(v): return is_variant(v, OPTION, 'Some')
def rok(v): return is_variant(v, RESULT, 'Ok')
@pure('Option::is_some')
def _(v): return bl(osome(v))
@pure('Option::is_none')
def _(v): return bl(NOT(osome(v)))
@pure('Result::is_ok')
def _(v): return bl(rok(v))
@pure('Result::is_err')
def _(v): return bl(NOT(rok(v)))
def R2(st, g, a, b): return st, phi([(AND(st.pc, g), a), (AND(st.pc, NOT(g)), b)])

@reg('Option::ok_or', 'Option::ok_or_else')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); return R2(st, osome(v), Ok(getvf(v, 'Some', '0')), ERRV)
@reg('Result::ok')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); return R2(st, rok(v), Some(getvf(v, 'Ok', '0')), NONE)
@reg('Result::err')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); return R2(st, rok(v), NONE, Some(ERR))
@reg('Result::map_err')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); return R2(st, rok(v), Ok(getvf(v, 'Ok', '0')), ERRV)
@reg('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    o = short(F['n']).startswith('Option')
    g = osome(v) if o else rok(v)
    st.pc = AND(st.pc, g)
    return st, getvf(v, 'Some' if o else 'Ok', '0')
@reg('Option::unwrap_or', 'Result::unwrap_or')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); o = short(F['n']).startswith('Option')
    return R2(st, osome(v) if o else rok(v), getvf(v, 'Some' if o else 'Ok', '0'), args[1])
@reg('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); o = short(F['n']).startswith('Option')
    return R2(st, osome(v) if o else rok(v), getvf(v, 'Some' if o else 'Ok', '0'), default_for(dty))
def _kind(F):
    o = short(F['n']).startswith('Option')
    return (OPTION, 'Some', 'None', Some, NONE) if o else (RESULT, 'Ok', 'Err', Ok, ERRV)
@reg('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    ca = [] if A == OPTION else [ERR]
    return I_.case(st, v, A, {s: lambda st, x: (st, x), n: lambda st, x: I_.call_value(st, args[1], ca)})
@reg('Option::map', 'Result::map')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    def h(st, x):
        st, r = I_.call_value(st, args[1], [x]); return st, mkS(r)
    return I_.case(st, v, A, {s: h, n: lambda st, x: (st, N)})
@reg('Option::and_then', 'Result::and_then')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return I_.case(st, v, A, {s: lambda st, x: I_.call_value(st, args[1], [x]), n: lambda st, x: (st, N)})
@reg('Option::and', 'Result::and')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return R2(st, is_variant(v, A, s), args[1], N)
@reg('Option::or', 'Result::or')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return R2(st, is_variant(v, A, s), mkS(getvf(v, s, '0')), args[1])
@reg('Option::or_else', 'Result::or_else')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return I_.case(st, v, A, {s: lambda st, x: (st, mkS(x)), n: lambda st, x: I_.call_value(st, args[1], [] if A == OPTION else [ERR])})
@reg('Option::map_or', 'Result::map_or')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return I_.case(st, v, A, {s: lambda st, x: I_.call_value(st, args[2], [x]), n: lambda st, x: (st, args[1])})
@reg('Option::map_or_else', 'Result::map_or_else')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return I_.case(st, v, A, {s: lambda st, x: I_.call_value(st, args[2], [x]), n: lambda st, x: I_.call_value(st, args[1], [] if A == OPTION else [ERR])})
@reg('Option::is_some_and', 'Result::is_ok_and')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return I_.case(st, v, A, {s: lambda st, x: I_.call_value(st, args[1], [x]), n: lambda st, x: (st, BF)})
@reg('Option::is_none_or')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    return I_.case(st, v, OPTION, {'Some': lambda st, x: I_.call_value(st, args[1], [x]), 'None': lambda st, x: (st, BT)})
@reg('Option::filter')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    def h(st, x):
        st, r = I_.call_value(st, args[1], [x]); return R2(st, truth(r), Some(x), NONE)
    return I_.case(st, v, OPTION, {'Some': h, 'None': lambda st, x: (st, NONE)})
@reg('Option::xor')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1]); x, y = osome(a), osome(b)
    return st, phi([(AND(st.pc, AND(x, NOT(y))), a), (AND(st.pc, AND(NOT(x), y)), b), (AND(st.pc, B.ite(x, y, NOT(y))), NONE)])
@reg('Option::zip')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    return R2(st, AND(osome(a), osome(b)), Some(mk('tup', getvf(a, 'Some', '0'), getvf(b, 'Some', '0'))), NONE)
@reg('Option::transpose')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); s = osome(v); r = getvf(v, 'Some', '0'); k = rok(r)
    return st, phi([(AND(st.pc, AND(s, k)), Ok(Some(getvf(r, 'Ok', '0')))), (AND(st.pc, AND(s, NOT(k))), ERRV), (AND(st.pc, NOT(s)), Ok(NONE))])
@reg('Result::transpose')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); k = rok(v); o = getvf(v, 'Ok', '0'); s = osome(o)
    return st, phi([(AND(st.pc, AND(k, s)), Some(Ok(getvf(o, 'Some', '0')))), (AND(st.pc, AND(k, NOT(s))), NONE), (AND(st.pc, NOT(k)), Some(ERRV))])
@reg('Option::flatten')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); return R2(st, osome(v), getvf(v, 'Some', '0'), NONE)
@reg('Option::get_or_insert_with', 'Option::get_or_insert')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    def none(st, x):
        if short(F['n']).endswith('with'): st, r = I_.call_value(st, args[1], [])
        else: r = args[1]
        I_.ptr_write(st, args[0], Some(r)); return st, r
    return I_.case(st, v, OPTION, {'Some': lambda st, x: (st, x), 'None': none})
@reg('Option::iter', 'Option::into_iter', 'Result::iter')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); A, s, n, mkS, N = _kind(F)
    return st, mk('iter', (((), is_variant(v, A, s), getvf(v, s, '0')),))
@reg('bool::then')
def _(I_, st, F, args, dty):
    g = truth(I_.full(st, args[0]))
    outs = []
    p = AND(st.pc, g); n = AND(st.pc, NOT(g))
    if n: outs.append((st.fork(n), NONE))
    if p:
        s, r = I_.call_value(st.fork(p), args[1], []); outs.append((s, Some(r)))
    return I_.join(outs)
@reg('bool::then_some')
def _(I_, st, F, args, dty): return R2(st, truth(I_.full(st, args[0])), Some(args[1]), NONE)
@reg('Option::inspect', 'Result::inspect', 'Result::inspect_err')
def _(I_, st, F, args, dty): return st, args[0]

@reg('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _(I_, st, F, args, dty):
    a = I_.full(st, args[1])
    return I_.call_value(st, args[0], list(a.a) if a.op == 'tup' else [getf(a, '0')])

# ------------------------------------------------------------------ comparison
@pure('PartialEq::eq')
def _(a, b): return bl(veq(a, b))
@pure('PartialEq::ne')
def _(a, b): return bl(NOT(veq(a, b)))
@pure('PartialOrd::lt')
def _(a, b): return bl(lt(a, b))
@pure('PartialOrd::gt')
def _(a, b): return bl(lt(b, a))
@pure('PartialOrd::le')
def _(a, b): return bl(NOT(lt(b, a)))
@pure('PartialOrd::ge')
def _(a, b): return bl(NOT(lt(a, b)))
def ordering(a, b):
    o = lambda n: adt(ORDERING, n, (), ())
    l, e = lt(a, b), eq(a, b)
    return phi([(l, o('Less')), (AND(NOT(l), e), o('Equal')), (AND(NOT(l), NOT(e)), o('Greater'))])
@pure('Ord::cmp')
def _(a, b): return ordering(a, b)
@pure('PartialOrd::partial_cmp')
def _(a, b): return Some(ordering(a, b))
@pure('Ord::min', 'cmp::min')
def _(a, b): return phi([(lt(a, b), a), (NOT(lt(a, b)), b)])
@pure('Ord::max', 'cmp::max')
def _(a, b): return phi([(lt(a, b), b), (NOT(lt(a, b)), a)])
@pure('Ord::clamp')
def _(x, a, b): return phi([(lt(x, a), a), (AND(NOT(lt(x, a)), lt(b, x)), b), (AND(NOT(lt(x, a)), NOT(lt(b, x))), x)])
def ordis(*ns):
    def f(o): return bl(B.any(is_variant(o, ORDERING, n) for n in ns))
    return f
pure('Ordering::is_lt')(ordis('Less')); pure('Ordering::is_gt')(ordis('Greater')); pure('Ordering::is_eq')(ordis('Equal'))
pure('Ordering::is_le')(ordis('Less', 'Equal')); pure('Ordering::is_ge')(ordis('Greater', 'Equal')); pure('Ordering::is_ne')(ordis('Less', 'Greater'))
@pure('Ordering::reverse')
def _(o): return lift(o, lambda x: adt(ORDERING, {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[x.a[1]], (), ()) if x.op == 'adt' else mk('call', 'reverse', x))
@pure('Not::not')
def _(a): return bl(NOT(truth(a)))
@pure('Range::contains')
def _(r, x):
    return bl(AND(NOT(lt(x, getf(r, 'start'))), lt(x, getf(r, 'end'))))
@pure('RangeInclusive::new')
def _(a, b): return adt('core::ops::range::RangeInclusive', 'RangeInclusive', ('start', 'end', 'exhausted'), (a, b, BF))
@pure('RangeInclusive::contains')
def _(r, x):
    return bl(AND(NOT(lt(x, getf(r, 'start'))), NOT(lt(getf(r, 'end'), x))))
def veq(a, b):
    # collections compared with an empty collection
    for x, y in ((a, b), (b, a)):
        if y.op == 'coll' and not y.a[1] and x.op != 'coll': return eq(length(x), ZERO)
        if y is S('') and x.op != 's': return eq(length(x), ZERO)
    return eq(a, b)

# ------------------------------------------------------------------ arithmetic
@pure('Add::add')
def _(a, b): return add(a, b)
@pure('Mul::mul')
def _(a, b): return mul(a, b)
@pure('Div::div')
def _(a, b): return div(a, b)
@pure('Rem::rem', '*::checked_rem_')
def _(a, b): return mk('bin', 'Rem', a, b)
@reg('Sub::sub')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    st.pc = AND(st.pc, NOT(lt(a, b)))
    return st, sub(a, b)
def assign(op):
    def f(I_, st, F, args, dty):
        a, b = I_.full(st, args[0]), I_.full(st, args[1])
        if op is sub: st.pc = AND(st.pc, NOT(lt(a, b)))
        I_.ptr_write(st, args[0], op(a, b))
        return st, UNIT
    return f
L['AddAssign::add_assign'] = assign(add); L['SubAssign::sub_assign'] = assign(sub); L['MulAssign::mul_assign'] = assign(mul); L['DivAssign::div_assign'] = assign(div)
def optres(dty, g, v, st):
    if dty is not None and dty.startswith(OPTION): return R2(st, g, Some(v), NONE)
    return R2(st, g, Ok(v), ERRV)
@reg('*::checked_add')
def _(I_, st, F, args, dty):
    return optres(dty, TRUE, add(I_.full(st, args[0]), I_.full(st, args[1])), st)
@reg('*::checked_mul')
def _(I_, st, F, args, dty):
    return optres(dty, TRUE, mul(I_.full(st, args[0]), I_.full(st, args[1])), st)
@reg('*::checked_sub')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    return optres(dty, NOT(lt(a, b)), sub(a, b), st)
@reg('*::checked_div', '*::checked_div_floor')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    return optres(dty, NOT(eq(b, ZERO)), div(a, b), st)
@pure('*::saturating_add', '*::wrapping_add')
def _(a, b): return add(a, b)
@pure('*::saturating_mul', '*::wrapping_mul')
def _(a, b): return mul(a, b)
@pure('*::saturating_sub')
def _(a, b): return phi([(lt(a, b), ZERO), (NOT(lt(a, b)), sub(a, b))])
@pure('*::wrapping_sub')
def _(a, b): return mk('call', 'wrapping_sub', a, b)
@pure('*::abs_diff')
def _(a, b): return phi([(lt(a, b), sub(b, a)), (NOT(lt(a, b)), sub(a, b))])
@pure('Uint128::zero', 'Uint64::zero', 'Decimal::zero', 'Uint256::zero')
def _(): return ZERO
@pure('Uint128::one', 'Uint64::one')
def _(): return ONE
@pure('Decimal::one')
def _(): return mk('dec', Fraction(1))
@pure('Decimal::percent')
def _(n): return mk('dec', Fraction(n.a[0], 100)) if n.op == 'i' else mk('call', 'percent', n)
@pure('Decimal::permille')
def _(n): return mk('dec', Fraction(n.a[0], 1000)) if n.op == 'i' else mk('call', 'permille', n)
@pure('*::is_zero')
def _(a): return bl(eq(a, ZERO))
def ratio(a, b):
    if a.op == 'i' and b.op == 'i' and b.a[0]:
        return ZERO if a.a[0] == 0 else mk('dec', Fraction(a.a[0], b.a[0]))
    if a is ZERO: return ZERO
    return mk('ratio', a, b)
@reg('Decimal::from_ratio')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    st.pc = AND(st.pc, NOT(eq(b, ZERO)))
    return st, lift2(a, b, ratio)
@reg('Decimal::checked_from_ratio')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    return optres(dty, NOT(eq(b, ZERO)), lift2(a, b, ratio), st)
@reg('*::checked_multiply_ratio', '*::multiply_ratio')
def _(I_, st, F, args, dty):
    a, b, c = [I_.full(st, x) for x in args]
    v = mulratio(a, b, c)
    if 'checked' in F['n']: return optres(dty, NOT(eq(c, ZERO)), v, st)
    st.pc = AND(st.pc, NOT(eq(c, ZERO)))
    return st, v
def mulratio(a, b, c):
    if b.op == 'f' and b.a[1] == '#num' and c.op == 'f' and c.a[1] == '#den' and b.a[0] is c.a[0]:
        return lift2(a, b.a[0], lambda x, y: mk('mulfloor', x, y) if x is not ZERO and y is not ZERO else ZERO)
    if b.op == 'phi' or a.op == 'phi':
        return lift2(a, b, lambda x, y: mulratio(x, y, c))
    return mk('mulratio', a, b, c)
@pure('Fraction::numerator', 'Decimal::numerator')
def _(a): return mk('f', a, '#num')
@pure('Fraction::denominator', 'Decimal::denominator')
def _(a): return mk('f', a, '#den')
@pure('*::mul_floor')
def _(a, b): return mk('mulfloor', a, b)
@pure('*::mul_ceil')
def _(a, b): return mk('mulceil', a, b)
for n in ('*::to_uint_floor', '*::to_uint_ceil', '*::checked_pow', '*::pow', '*::floor', '*::ceil', '*::atomics', '*::isqrt'):
    def _np(I_, st, F, args, dty, n=n):
        v = mk('call', n[3:], *[I_.full(st, a) for a in args])
        return st, (Ok(v) if dty and dty.startswith(RESULT) else v)
    L[n] = _np
@reg('TryFrom::try_from', 'TryInto::try_into', 'FromStr::from_str', 'str::parse')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    ty = (F.get('a') or [''])[0]
    num = F.get('argtys') and any(x in (F['argtys'][0] or '') for x in ('u8', 'u16', 'u32', 'u64', 'u128', 'Uint', 'usize')) and 'str' not in (F['argtys'][0] or '').lower()
    if num: return R2(st, atom('convok', v), Ok(v), ERRV)
    return R2(st, atom('parseok', v), Ok(mk('parsed', v, dty or '')), ERRV)

# time
NANO = 1000000000
@pure('Timestamp::plus_seconds')
def _(t, n): return add(t, mul(I(NANO), n))
@pure('Timestamp::minus_seconds')
def _(t, n): return sub(t, mul(I(NANO), n))
@pure('Timestamp::plus_nanos')
def _(t, n): return add(t, n)
@pure('Timestamp::minus_nanos')
def _(t, n): return sub(t, n)
@pure('Timestamp::plus_minutes')
def _(t, n): return add(t, mul(I(60 * NANO), n))
@pure('Timestamp::plus_hours')
def _(t, n): return add(t, mul(I(3600 * NANO), n))
@pure('Timestamp::plus_days')
def _(t, n): return add(t, mul(I(86400 * NANO), n))
@pure('Timestamp::from_seconds')
def _(n): return mul(I(NANO), n)
@pure('Timestamp::seconds')
def _(t): return lift(t, secs)
def secs(t):
    k, d = lin(t)
    if k % NANO == 0 and all(c % NANO == 0 for c in d.values()):
        return unlin(k // NANO, {x: c // NANO for x, c in d.items()})
    # floor((t + NANO*n)/NANO) = secs(t)+n
    kk, k0 = divmod(k, NANO)
    whole = {x: c // NANO for x, c in d.items() if c % NANO == 0}
    rest = {x: c for x, c in d.items() if c % NANO}
    return TM._add(unlin(kk, whole), mk('secs', unlin(k0, rest)))
@pure('Expiration::is_expired')
def _(e, blk):
    X = 'cw_utils::expiration::Expiration'
    return bl(B.any([AND(is_variant(e, X, 'AtHeight'), NOT(lt(getf(blk, 'height'), getvf(e, 'AtHeight', '0')))),
                     AND(is_variant(e, X, 'AtTime'), NOT(lt(getf(blk, 'time'), getvf(e, 'AtTime', '0'))))]))

# ------------------------------------------------------------------ strings / fmt
@reg('Arguments::from_str', 'Arguments::new', 'Arguments::new_const', 'Arguments::new_v1', 'fmt::format', 'Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def _(I_, st, F, args, dty): return st, mk('fmt', *[I_.full(st, a) for a in args])
@pure('String::new')
def _(): return S('')
@pure('String::len', 'str::len')
def _(s): return length(s)
@pure('String::is_empty', 'str::is_empty')
def _(s): return bl(eq(length(s), ZERO))
@reg('panicking::panic_fmt', 'panicking::panic', 'process::abort', 'panicking::unreachable_display', 'result::unwrap_failed', 'option::expect_failed')
def _(I_, st, F, args, dty):
    st.pc = FALSE; return st, mk('undef')

# ------------------------------------------------------------------ collections
@pure('Vec::new', 'Vec::with_capacity_', 'slice::empty')
def _(*a): return coll('vec', ())
@reg('Vec::with_capacity')
def _(I_, st, F, args, dty): return st, coll('vec', ())
@reg('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def _(I_, st, F, args, dty): return st, coll('set', ())
@reg('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def _(I_, st, F, args, dty): return st, coll('map', ())

def as_coll(v, kind='vec'):
    if v.op == 'coll': return v
    return mk('coll', kind, parts_of(v))
def append_parts(v, parts, kind='vec', front=False):
    if v.op == 'phi' : return phi([(g, append_parts(x, parts, kind, front)) for g, x in v.a[0]])
    c = as_coll(v, kind)
    return coll(c.a[0], tuple(parts) + c.a[1] if front else c.a[1] + tuple(parts))
@reg('Vec::push', 'VecDeque::push_back', 'Vec::insert', 'VecDeque::push_front')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    front = short(F['n']) == 'VecDeque::push_front' or (len(args) == 3 and args[1] is I(0))
    I_.ptr_write(st, args[0], append_parts(v, [((), TRUE, args[-1])], front=front))
    return st, UNIT
@reg('Vec::append')
def _(I_, st, F, args, dty):
    v, w = I_.full(st, args[0]), I_.full(st, args[1])
    I_.ptr_write(st, args[0], append_parts(v, parts_of(w)))
    I_.ptr_write(st, args[1], coll('vec', ()))
    return st, UNIT
@reg('Extend::extend', 'Vec::extend_from_slice', 'Extend::extend_one')
def _(I_, st, F, args, dty):
    v, w = I_.full(st, args[0]), I_.full(st, args[1])
    I_.ptr_write(st, args[0], append_parts(v, parts_of(w), v.a[0] if v.op == 'coll' else 'vec'))
    return st, UNIT
@reg('slice::concat', 'Concat::concat')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    out = []
    for q, g, x in parts_of(v):
        for q2, g2, y in parts_of(x): out.append((q + q2, AND(g, g2), y))
    return st, coll('vec', out)
@pure('Vec::len', 'slice::len', 'HashSet::len', 'BTreeMap::len', 'HashMap::len', 'BTreeSet::len', 'ExactSizeIterator::len', 'VecDeque::len')
def _(v): return length(v)
def empty(v):
    if v.op == 'phi': return B.any(AND(g, empty(x)) for g, x in v.a[0])
    if v.op == 'coll': return NOT(B.any(any_(q, g) for q, g, _ in v.a[1]))
    return eq(length(v), ZERO)
@pure('Vec::is_empty', 'slice::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty', 'HashMap::is_empty', 'BTreeSet::is_empty', 'Binary::is_empty')
def _(v): return bl(empty(v))
def contains(v, x):
    return B.any(any_(q, AND(g, eq(y, x))) for q, g, y in parts_of(v))
@reg('slice::contains', 'HashSet::contains', 'BTreeSet::contains', 'Vec::contains', 'VecDeque::contains')
def _(I_, st, F, args, dty):
    v, x = I_.full(st, args[0]), I_.full(st, args[1])
    return st, bl(contains_st(I_, st, v, x))
def contains_st(I_, st, v, x):
    r = FALSE
    for q, g, y in parts_of(v):
        if q and I_.shadow(st, q): q, g, y = I_.fresh_part(st, q, g, y)
        r = OR(r, any_(q, AND(g, eq(y, x))))
    return r
@reg('HashSet::insert', 'BTreeSet::insert')
def _(I_, st, F, args, dty):
    v, x = I_.full(st, args[0]), args[1]
    c = contains_st(I_, st, v, x)
    I_.ptr_write(st, args[0], append_parts(v, [((), TRUE, x)], 'set'))
    return st, bl(NOT(c))
@reg('HashSet::remove', 'BTreeSet::remove')
def _(I_, st, F, args, dty):
    v, x = I_.full(st, args[0]), I_.full(st, args[1])
    c = contains_st(I_, st, v, x)
    I_.ptr_write(st, args[0], mk('coll', 'set', tuple((q, AND(g, NOT(eq(y, x))), y) for q, g, y in parts_of(v))))
    return st, bl(c)
@reg('HashSet::intersection', 'BTreeSet::intersection', 'HashSet::difference', 'BTreeSet::difference')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    neg = 'difference' in F['n']
    out = []
    for q, g, y in parts_of(a):
        c = contains(b, y)
        out.append((q, AND(g, NOT(c) if neg else c), y))
    return st, mk('iter', tuple(p for p in out if p[1]))
@reg('HashSet::is_disjoint', 'BTreeSet::is_disjoint', 'HashSet::is_subset', 'BTreeSet::is_subset', 'HashSet::is_superset', 'BTreeSet::is_superset')
def _(I_, st, F, args, dty):
    a, b = I_.full(st, args[0]), I_.full(st, args[1])
    if 'superset' in F['n']: a, b = b, a
    neg = 'disjoint' in F['n']
    return st, bl(NOT(B.any(any_(q, AND(g, contains(b, y) if neg else NOT(contains(b, y)))) for q, g, y in parts_of(a))))
@reg('HashSet::union')
def _(I_, st, F, args, dty):
    return st, mk('iter', parts_of(I_.full(st, args[0])) + parts_of(I_.full(st, args[1])))
@reg('Vec::retain', 'HashSet::retain', 'BTreeSet::retain')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    st, it = it_filter(I_, st, v, args[1])
    I_.ptr_write(st, args[0], mk('coll', 'set', it.a[0]) if v.op == 'coll' and v.a[0] == 'set' else coll('vec', it.a[0]))
    return st, UNIT
@reg('Vec::clear', 'HashSet::clear', 'BTreeMap::clear')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    I_.ptr_write(st, args[0], coll(v.a[0] if v.op == 'coll' else 'vec', ())); return st, UNIT
@reg('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::reverse')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); ps = parts_of(v)
    if 'reverse' in F['n']: ps = reversed_parts(ps)
    elif any(not q for q, _, _ in ps) and len(ps) > 1: I_.ptr_write(st, args[0], mk('call', 'sorted', v)); return st, UNIT
    else: ps = sorted_parts(ps)
    I_.ptr_write(st, args[0], mk('coll', 'vec', ps)); return st, UNIT
@reg('Vec::shrink_to_fit', 'Vec::reserve')
def _(I_, st, F, args, dty): return st, UNIT
@reg('Vec::dedup', 'Vec::dedup_by_key')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    I_.ptr_write(st, args[0], mk('coll', 'vec', tuple((tuple(mk('uniq', s) for s in q), g, x) for q, g, x in parts_of(v)))); return st, UNIT
@reg('Vec::pop', 'VecDeque::pop_back')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    e = empty(v)
    if v.op == 'coll' and v.a[1] and not v.a[1][-1][0] and v.a[1][-1][1] == TRUE:
        I_.ptr_write(st, args[0], coll(v.a[0], v.a[1][:-1]))
        return st, Some(v.a[1][-1][2])
    I_.ptr_write(st, args[0], mk('call', 'popped', v))
    return R2(st, NOT(e), Some(mk('get', v, S('last'))), NONE)
@reg('VecDeque::pop_front')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    if v.op == 'coll' and v.a[1] and not v.a[1][0][0] and v.a[1][0][1] == TRUE:
        I_.ptr_write(st, args[0], coll(v.a[0], v.a[1][1:]))
        return st, Some(v.a[1][0][2])
    I_.ptr_write(st, args[0], mk('call', 'rest', v))
    return R2(st, NOT(empty(v)), Some(mk('get', v, S('first'))), NONE)
@reg('Vec::remove', 'Vec::swap_remove')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); i = I_.full(st, args[1])
    x = index(v, i)
    if v.op == 'coll' and i.op == 'i' and all(not q and g == TRUE for q, g, _ in v.a[1][:i.a[0] + 1]) and len(v.a[1]) > i.a[0]:
        I_.ptr_write(st, args[0], coll(v.a[0], v.a[1][:i.a[0]] + v.a[1][i.a[0] + 1:]))
    else: I_.ptr_write(st, args[0], mk('call', 'without', v, i))
    return st, x
@reg('Vec::drain')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); I_.ptr_write(st, args[0], coll('vec', ())); return st, mk('iter', parts_of(v))
def index(v, i):
    if v.op == 'phi': return phi([(g, index(x, i)) for g, x in v.a[0]])
    if v.op == 'coll' and i.op == 'i' and len(v.a[1]) > i.a[0] and all(not q and g == TRUE for q, g, _ in v.a[1][:i.a[0] + 1]):
        return v.a[1][i.a[0]][2]
    if v.op == 'tup' and i.op == 'i' and i.a[0] < len(v.a): return v.a[i.a[0]]
    if i.op == 'pos':
        r = at_position(v, i)
        if r is not None: return r
    return mk('get', v, i)
def set_index(v, i, x):
    if v.op == 'coll' and i.op == 'i' and len(v.a[1]) > i.a[0] and all(not q and g == TRUE for q, g, _ in v.a[1][:i.a[0] + 1]):
        n = i.a[0]
        return coll(v.a[0], v.a[1][:n] + (((), TRUE, x),) + v.a[1][n + 1:])
    return mk('call', 'setidx', v, i, x)
@reg('Index::index')
def _(I_, st, F, args, dty):
    v, i = I_.full(st, args[0]), I_.full(st, args[1])
    if v.op in ('coll',) and v.a[0] == 'map' or v.op == 'mapset': return st, map_get_val(v, i)
    if i.op == 'i' and v.op not in ('coll',): st.pc = AND(st.pc, lt(i, length(v)))
    if i.op == 'adt' : return st, mk('call', 'slice', v, i)
    return st, index(v, i)
@reg('IndexMut::index_mut')
def _(I_, st, F, args, dty):
    p = args[0]; i = I_.full(st, args[1])
    if p.op == 'ptr': return st, mk('ptr', p.a[0], p.a[1], p.a[2] + (('idx', i),))
    return st, p
@reg('slice::first', 'slice::last', 'slice::get', 'Vec::first', 'Vec::last')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); n = short(F['n']).split('::')[1]
    ps = parts_of(v) if v.op in ('coll', 'phi') else None
    if n == 'get':
        i = I_.full(st, args[1])
        return R2(st, lt(i, length(v)), Some(index(v, i)), NONE)
    if v.op == 'coll' and v.a[1]:
        q, g, x = v.a[1][0 if n == 'first' else -1]
        if not q and g == TRUE: return st, Some(x)
    ix = ZERO if n == 'first' else S('last')
    return R2(st, NOT(empty(v)), Some(index(v, ix)), NONE)
@pure('str::split', 'str::split_whitespace')
def _(*a): return mk('call', 'split', *a)

# maps
def map_has(m, k):
    if m.op == 'phi': return B.any(AND(g, map_has(x, k)) for g, x in m.a[0])
    if k.op == 'phi': return B.any(AND(g, map_has(m, x)) for g, x in k.a[0])
    if m.op == 'mapset': return OR(eq(m.a[1], k), map_has(m.a[0], k))
    if m.op == 'maprm': return AND(NOT(eq(m.a[1], k)), map_has(m.a[0], k))
    if m.op == 'coll': return B.any(AND(g, atom('has', whole_map(q, v), k)) if whole_map(q, v) and free(g, q) else any_(q, AND(g, eq(getf(v, '0'), k))) for q, g, v in m.a[1])
    if m.op == 'undef': return FALSE
    return atom('haskey', m, k)
def free(g, q):
    """guard does not speak about the elements of q"""
    for v in B.support(g):
        k = atomkey(v)
        if not (k[0] == 'tt' and k[1].op == 'kept'): return False
    return True
def map_get_val(m, k):
    if m.op == 'phi': return phi([(g, map_get_val(x, k)) for g, x in m.a[0]])
    if k.op == 'phi': return phi([(g, map_get_val(m, x)) for g, x in k.a[0]])
    if m.op == 'mapset':
        e = eq(m.a[1], k)
        return phi([(e, m.a[2]), (NOT(e), map_get_val(m.a[0], k))])
    if m.op == 'maprm': return map_get_val(m.a[0], k)
    if m.op == 'coll':
        al = []; rem = TRUE
        for q, g, v in reversed(m.a[1]):
            c = any_(q, AND(g, eq(getf(v, '0'), k)))
            if not q: al.append((AND(rem, c), getf(v, '1')))
            else:
                w = whole_map(q, v)
                al.append((AND(rem, c), mk('load', w, k) if w else mk('mapget', m, k)))
            rem = AND(rem, NOT(c))
        return phi(al) if al else mk('undef')
    if m.op == 'undef': return m
    return mk('mapget', m, k)
def map_set(m, k, v):
    if m.op == 'phi': return phi([(g, map_set(x, k, v)) for g, x in m.a[0]])
    if k.op == 'phi': return phi([(g, map_set(m, x, v)) for g, x in k.a[0]])
    if m.op == 'mapset' and m.a[1] is k: return map_set(m.a[0], k, v)
    if m.op == 'coll': return coll('map', tuple((q, AND(g, NOT(eq(getf(x, '0'), k))), x) for q, g, x in m.a[1] if AND(g, NOT(eq(getf(x, '0'), k)))) + (((), TRUE, mk('tup', k, v)),))
    # canonical order of independent updates
    if m.op == 'mapset' and eq(m.a[1], k) == FALSE and m.a[1].id > k.id:
        return mk('mapset', map_set(m.a[0], k, v), m.a[1], m.a[2])
    return mk('mapset', m, k, v)
def map_rm(m, k):
    if m.op == 'phi': return phi([(g, map_rm(x, k)) for g, x in m.a[0]])
    if k.op == 'phi': return phi([(g, map_rm(m, x)) for g, x in k.a[0]])
    if m.op == 'coll': return coll('map', tuple((q, AND(g, NOT(eq(getf(x, '0'), k))), x) for q, g, x in m.a[1]))
    return mk('maprm', m, k)
def whole_map(q, v):
    """namespace if the entry describes every (key, value) of a storage map"""
    if len(q) == 1 and q[0].op == 'range' and not q[0].a[1] and q[0].a[6] == 0 and q[0].a[2] is mk('tup') and q[0].a[3] is NONE and q[0].a[4] is NONE and v.op == 'tup' and len(v.a) == 2:
        rk = mk('rkey', q[0])
        if v.a[0] is rk and v.a[1] is mk('load', q[0].a[0], rk): return q[0].a[0]
@reg('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut', 'BTreeMap::get_mut')
def _(I_, st, F, args, dty):
    m, k = I_.full(st, args[0]), I_.full(st, args[1])
    h = map_has(m, k)
    if 'get_mut' in F['n'] and args[0].op == 'ptr':
        p = args[0]
        v = mk('ptr', p.a[0], p.a[1], p.a[2] + (('key', k),))
    else: v = map_get_val(m, k)
    return R2(st, h, Some(v), NONE)
@reg('HashMap::contains_key', 'BTreeMap::contains_key')
def _(I_, st, F, args, dty): return st, bl(map_has(I_.full(st, args[0]), I_.full(st, args[1])))
@reg('HashMap::insert', 'BTreeMap::insert')
def _(I_, st, F, args, dty):
    m = I_.full(st, args[0]); k = I_.full(st, args[1])
    h = map_has(m, k); old = map_get_val(m, k)
    I_.ptr_write(st, args[0], map_set(m, k, args[2]))
    return R2(st, h, Some(old), NONE)
@reg('HashMap::remove', 'BTreeMap::remove')
def _(I_, st, F, args, dty):
    m = I_.full(st, args[0]); k = I_.full(st, args[1])
    h = map_has(m, k); old = map_get_val(m, k)
    I_.ptr_write(st, args[0], map_rm(m, k))
    return R2(st, h, Some(old), NONE)
@reg('HashMap::entry', 'BTreeMap::entry')
def _(I_, st, F, args, dty): return st, mk('entry', args[0], I_.full(st, args[1]))
@reg('Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with')
def _(I_, st, F, args, dty):
    p, k = args[0].a
    m = I_.full(st, p); h = map_has(m, k); old = map_get_val(m, k)
    n = short(F['n'])
    if n == 'Entry::or_insert': d = args[1]
    elif n == 'Entry::or_default': d = default_for(re.sub(r"^&('\w+ )?mut ", '', dty or ''))
    else: st, d = I_.call_value(st, args[1], [])
    v = phi([(AND(st.pc, h), old), (AND(st.pc, NOT(h)), d)])
    I_.ptr_write(st, p, map_set(m, k, v))
    return st, mk('ptr', p.a[0], p.a[1], p.a[2] + (('key', k),))
@reg('Entry::and_modify')
def _(I_, st, F, args, dty):
    p, k = args[0].a
    m = I_.full(st, p); h = map_has(m, k)
    outs = []
    if AND(st.pc, NOT(h)): outs.append((st.fork(AND(st.pc, NOT(h))), args[0]))
    if AND(st.pc, h):
        s, _v = I_.call_value(st.fork(AND(st.pc, h)), args[1], [mk('ptr', p.a[0], p.a[1], p.a[2] + (('key', k),))])
        outs.append((s, args[0]))
    return I_.join(outs)
@reg('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values')
def _(I_, st, F, args, dty): return st, mk('iter', tuple((q, g, getf(v, '1')) for q, g, v in parts_of(I_.full(st, args[0]))))
@reg('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys', 'BTreeMap::into_keys')
def _(I_, st, F, args, dty): return st, mk('iter', tuple((q, g, getf(v, '0')) for q, g, v in parts_of(I_.full(st, args[0]))))

# ------------------------------------------------------------------ iterators
@reg('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'HashSet::iter', 'BTreeMap::iter', 'HashMap::iter', 'Iterator::by_ref', 'BTreeSet::iter', 'Vec::into_iter', 'VecDeque::iter')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    if v.op == 'adt' and v.a[0] == 'core::ops::range::Range':
        ps = positions(getf(v, 'end')) if getf(v, 'start') is ZERO else None
        if ps is not None: return st, mk('iter', ps)
        s = src(v); return st, mk('iter', (((s,), TRUE, elem(s)),))
    t = (F.get('argtys') or [''])[0] or ''
    t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    if t.startswith(OPTION) and v.op not in ('iter', 'coll'):
        return st, mk('iter', (((), osome(v), getvf(v, 'Some', '0')),))
    return st, mk('iter', parts_of(v))
@reg('slice::iter_mut', 'Vec::iter_mut', 'Option::iter_mut')
def _(I_, st, F, args, dty):
    p = args[0]; v = I_.full(st, p)
    I_.unknown['iter_mut'] = I_.unknown.get('iter_mut', 0) + 1
    return st, mk('iter', parts_of(v))

def over(I_, st, parts, f):
    """run f(state, val)->(state, result) for every part; returns (state, [(q,g,val,result)])"""
    out = []
    for q, g, v in parts:
        if not st.pc: break
        if q and I_.shadow(st, q): q, g, v = I_.fresh_part(st, q, g, v)
        if not q:
            p = AND(st.pc, g)
            if not p: continue
            if p == st.pc:
                st, r = f(st, v)
                out.append((q, g, v, r))
            else:
                s2, r = f(st.fork(p), v)
                skip = st.fork(AND(st.pc, NOT(g)))
                from interp import merge_states
                lost = AND(p, NOT(s2.pc))
                st = merge_states([x for x in (s2, skip) if x.pc]) or s2
                out.append((q, g, v, r))
        else:
            box = {}
            def run(s, v=v):
                s2, r = f(s, v)
                box['r'] = r
                return (s2 if s2.pc else None), []
            st, _ex = I_.summarise(st, q, g, run)
            if 'r' in box: out.append((q, g, v, box['r']))   # else: no such element on this path
    return st, out

def it_map(I_, st, v, clo):
    st, o = over(I_, st, parts_of(v), lambda s, x: I_.call_value(s, clo, [x]))
    return st, mk('iter', tuple((q, g, r) for q, g, x, r in o))
@reg('Iterator::map')
def _(I_, st, F, args, dty): return it_map(I_, st, I_.full(st, args[0]), args[1])
def it_filter(I_, st, v, clo):
    st, o = over(I_, st, parts_of(v), lambda s, x: I_.call_value(s, clo, [x]))
    return st, mk('iter', tuple(p for p in ((q, AND(g, truth(r)), x) for q, g, x, r in o) if p[1]))
@reg('Iterator::filter')
def _(I_, st, F, args, dty): return it_filter(I_, st, I_.full(st, args[0]), args[1])
@reg('Iterator::filter_map')
def _(I_, st, F, args, dty):
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), lambda s, x: I_.call_value(s, args[1], [x]))
    return st, mk('iter', tuple(p for p in ((q, AND(g, osome(r)), getvf(r, 'Some', '0')) for q, g, x, r in o) if p[1]))
def flat1(q, g, r, hint=None):
    """flatten one element value"""
    out = []
    for g2, x in alts(r):
        gg = AND(g, g2)
        if not gg: continue
        if x.op == 'adt' and x.a[0] == OPTION or (hint == 'opt' and x.op not in ('coll', 'iter')):
            out.append((q, AND(gg, osome(x)), getvf(x, 'Some', '0')))
        elif x.op == 'adt' and x.a[0] == RESULT or (hint == 'res' and x.op not in ('coll', 'iter')):
            out.append((q, AND(gg, rok(x)), getvf(x, 'Ok', '0')))
        else:
            for q2, g3, y in parts_of(x): out.append((q + q2, AND(gg, g3), y))
    return [p for p in out if p[1]]
def flat_hint(F):
    s = ' '.join(F.get('a') or [])
    return None
@reg('Iterator::flatten')
def _(I_, st, F, args, dty):
    out = []
    t = (F.get('a') or [''])[0]
    for q, g, x in parts_of(I_.full(st, args[0])): out += flat1(q, g, x, item_hint(F, dty))
    return st, mk('iter', tuple(out))
def item_hint(F, dty):
    # Item type of the flattened iterator is not printed; look for the innermost element type
    t = (F.get('argtys') or [''])[0] or ''
    m = re.search(r'(?:IntoIter|Iter)<(?:\'\w+, )?(core::(option|result))', t)
    if m: return 'opt' if m.group(2) == 'option' else 'res'
    return None
@reg('Iterator::flat_map')
def _(I_, st, F, args, dty):
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), lambda s, x: I_.call_value(s, args[1], [x]))
    out = []
    for q, g, x, r in o: out += flat1(q, g, r)
    return st, mk('iter', tuple(out))
def wrapq(op, parts, *extra):
    out = []
    for q, g, v in parts:
        # what was filtered out before counts for nothing: the filter is part of the name
        if q: out.append(((mk(op, q[0], *extra, *(() if g == TRUE and len(q) == 1 and len(parts) == 1 else (bl(g), q[1:], len(parts)))),) + q[1:], g, v))
        else: out.append((q, g, v))
    return tuple(out)
@reg('Iterator::take', 'Iterator::step_by')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); n = I_.full(st, args[1])
    return st, mk('iter', wrapq(short(F['n'])[10:], parts_of(v), n))
@reg('Iterator::take_while')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); ps = parts_of(v)
    if len(ps) != 1 or len(ps[0][0]) != 1: return st, mk('iter', parts_of(mk('call', 'Iterator::take_while', v, args[1])))
    st, o = over(I_, st, ps, lambda s, x: I_.call_value(s, args[1], [x]))
    return st, mk('iter', tuple(((mk('upto', q[0], bl(NOT(AND(g, truth(r))))),), AND(g, truth(r)), x) for q, g, x, r in o))
@reg('Iterator::skip')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); n = I_.full(st, args[1])
    ps = parts_of(v)
    if n.op == 'i' and all(not q and g == TRUE for q, g, _ in ps): return st, mk('iter', ps[n.a[0]:])
    return st, mk('iter', wrapq('skip', ps, n))
def reversed_parts(ps):
    return tuple((tuple(s.a[0] if s.op == 'rev' else mk('rev', s) for s in q), g, v) for q, g, v in reversed(ps))
def sorted_parts(ps):
    if len(ps) < 2 and not any(q for q, _, _ in ps): return ps
    return tuple((tuple(s if s.op == 'sorted' else mk('sorted', s.a[0] if s.op == 'rev' else s) for s in q), g, v) for q, g, v in ps)
@reg('Iterator::rev', 'Iterator::peekable', 'Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Itertools::sorted', 'Itertools::sorted_by', 'Itertools::sorted_by_key')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    ps = parts_of(v)
    if short(F['n']) == 'Iterator::rev': ps = reversed_parts(ps)
    elif 'sorted' in F['n']: ps = sorted_parts(ps)
    return st, mk('iter', ps)
@reg('Itertools::unique', 'Itertools::unique_by', 'Itertools::dedup', 'Itertools::dedup_by', 'Itertools::dedup_by_key')
def _(I_, st, F, args, dty):
    ps = parts_of(I_.full(st, args[0]))
    # dropping neighbours that repeat leaves distinct entries only where they are in order
    if 'dedup' in short(F['n']) and not all(len(q) == 1 and q[0].op == 'sorted' for q, _, _ in ps): return st, mk('iter', wrapq('neighbours', ps, S(short(F['n']))))
    if len(args) > 1:
        st, o = over(I_, st, ps, lambda s, x: I_.call_value(s, args[1], [x]))
        return st, mk('iter', tuple(((mk('uniq', q[0], r),) + q[1:] if q else q, g, x) for q, g, x, r in o))
    return st, mk('iter', tuple(((mk('uniq', q[0], v),) + q[1:] if q else q, g, v) for q, g, v in ps))
@reg('Iterator::chain')
def _(I_, st, F, args, dty): return st, mk('iter', parts_of(I_.full(st, args[0])) + parts_of(I_.full(st, args[1])))
@reg('iter::once', 'once::once')
def _(I_, st, F, args, dty): return st, mk('iter', (((), TRUE, args[0]),))
@reg('iter::empty', 'empty::empty')
def _(I_, st, F, args, dty): return st, mk('iter', ())
@reg('Iterator::enumerate')
def _(I_, st, F, args, dty):
    ps = parts_of(I_.full(st, args[0]))
    return st, mk('iter', tuple((q, g, mk('tup', mk('idx', q[0]) if q else I(i), v)) for i, (q, g, v) in enumerate(ps)))
@reg('Iterator::zip', 'iter::zip', 'zip::zip')
def _(I_, st, F, args, dty):
    a, b = parts_of(I_.full(st, args[0])), parts_of(I_.full(st, args[1]))
    if all(not q and g == TRUE for q, g, _ in a) and all(not q and g == TRUE for q, g, _ in b):
        return st, mk('iter', tuple(((), TRUE, mk('tup', x[2], y[2])) for x, y in zip(a, b)))
    if len(a) == 1 and len(b) == 1 and a[0][0] and b[0][0]:
        if a[0][0] == b[0][0]: return st, mk('iter', ((a[0][0], AND(a[0][1], b[0][1]), mk('tup', a[0][2], b[0][2])),))
        return st, mk('iter', (((mk('zip', a[0][0][0], b[0][0][0]),), AND(a[0][1], b[0][1]), mk('tup', a[0][2], b[0][2])),))
    s = src(mk('call', 'zip', mk('coll', 'vec', a), mk('coll', 'vec', b)))
    return st, mk('iter', (((s,), TRUE, elem(s)),))
@reg('Iterator::count')
def _(I_, st, F, args, dty): return st, count(parts_of(I_.full(st, args[0])))
@reg('Iterator::sum')
def _(I_, st, F, args, dty): return st, sum_(parts_of(I_.full(st, args[0])))
@reg('Iterator::any', 'Iterator::all')
def _(I_, st, F, args, dty):
    neg = short(F['n']).endswith('all')
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), lambda s, x: I_.call_value(s, args[1], [x]))
    r = FALSE
    for q, g, x, c in o:
        t = truth(c)
        r = OR(r, any_(q, AND(g, NOT(t) if neg else t)))
    return st, bl(NOT(r) if neg else r)
@reg('Iterator::find', 'Iterator::position', 'Iterator::find_map')
def _(I_, st, F, args, dty):
    n = short(F['n'])
    ps = parts_of(I_.full(st, args[0]))
    st, o = over(I_, st, ps, lambda s, x: I_.call_value(s, args[1], [x]))
    al = []; rem = st.pc
    for i, (q, g, x, c) in enumerate(o):
        if n.endswith('find_map'): f = AND(g, osome(c)); val = getvf(c, 'Some', '0')
        else:
            f = AND(g, truth(c))
            val = x if n.endswith('find') else (mk('idx', q[0]) if q else I(i))
        a = any_(q, f)
        if q:
            m = {}
            for sq in q:
                m[elem(sq, 0)] = mk('first', sq, f, 0)
                m[mk('rkey', sq)] = mk('first', sq, f, 1)
                m[mk('idx', sq)] = mk('first', sq, f, 2)
            val = subst(val, m)
        al.append((AND(rem, a), Some(val)))
        rem = AND(rem, NOT(a))
    al.append((rem, NONE))
    return st, phi(al)
@reg('Iterator::next', 'Iterator::last', 'DoubleEndedIterator::next_back', 'Iterator::nth')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    ps = parts_of(v)
    n = short(F['n'])
    if n != 'Iterator::next':
        e = NOT(B.any(any_(q, g) for q, g, _ in ps))
        return R2(st, NOT(e), Some(mk('get', coll('vec', ps), S(n))), NONE)
    if not ps: return st, NONE
    q, g, x = ps[0]
    if not q:
        if g == TRUE:
            I_.ptr_write(st, args[0], mk('iter', ps[1:]))
            return st, Some(x)
        if len(ps) == 1:
            I_.ptr_write(st, args[0], mk('iter', ()))
            return R2(st, g, Some(x), NONE)
    f = B.any(any_(q2, g2) for q2, g2, _ in ps)
    if len(ps) == 1:
        m = {}
        for sq in q:
            m[elem(sq, 0)] = mk('first', sq, g, 0)
            m[mk('rkey', sq)] = mk('first', sq, g, 1)
        val = subst(x, m)
        I_.ptr_write(st, args[0], mk('iter', wrapq('skip', ps, ONE)))
    else:
        c = mk('coll', 'vec', ps)
        val = mk('get', c, ZERO)
        I_.ptr_write(st, args[0], mk('iter', wrapq('skip', parts_of(mk('call', 'tail', c)), ONE)))
    return R2(st, f, Some(val), NONE)
@reg('Iterator::for_each')
def _(I_, st, F, args, dty):
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), lambda s, x: I_.call_value(s, args[1], [x]))
    return st, UNIT
@reg('Iterator::try_for_each')
def _(I_, st, F, args, dty):
    A = OPTION if dty and dty.startswith(OPTION) else RESULT
    okn = 'Some' if A == OPTION else 'Ok'
    bad = FALSE
    box = []
    def f(s, x):
        s, r = I_.call_value(s, args[1], [x])
        g = is_variant(r, A, okn)
        box.append((s.pc, g))
        return s, r
    st0 = st.pc
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), f)
    for q, g, x, r in o:
        bad = OR(bad, any_(q, AND(g, NOT(is_variant(r, A, okn)))))
    ok, er = (Some(UNIT), NONE) if A == OPTION else (Ok(UNIT), ERRV)
    return R2(st, NOT(bad), ok, er)
@reg('Iterator::fold', 'Iterator::try_fold', 'Itertools::fold_ok')
def _(I_, st, F, args, dty):
    it, init, clo = I_.full(st, args[0]), args[1], args[2]
    tryf = 'try_fold' in F['n']
    # accumulator as a cell of a scratch frame so the loop summariser sees it
    fid = next(I_.nf)
    st.frames = dict(st.frames); st.frames[fid] = {'acc': init}; st.owned.add(fid)
    okn, A, mkS, N = ('Some', OPTION, Some, NONE) if dty and dty.startswith(OPTION) else ('Ok', RESULT, Ok, ERRV)
    bad = []
    def f(s, x):
        s, r = I_.call_value(s, clo, [s.frames[fid]['acc'], x])
        if tryf:
            g = is_variant(r, A, okn)
            s.set(fid, 'acc', getvf(r, okn, '0'))
            return s, bl(g)
        s.set(fid, 'acc', r)
        return s, BT
    st, o = over(I_, st, parts_of(it), f)
    v = st.frames[fid]['acc'] if fid in st.frames else mk('undef')
    st.frames = dict(st.frames); st.frames.pop(fid, None)
    if tryf:
        b = B.any(any_(q, AND(g, NOT(truth(r)))) for q, g, x, r in o)
        return R2(st, NOT(b), mkS(v), N)
    return st, v
def kind_of(ty):
    ty = ty or ''
    if 'hash::set::HashSet' in ty.split('<')[0] or 'btree::set' in ty.split('<')[0]: return 'set'
    if 'map::HashMap' in ty.split('<')[0] or 'btree::map' in ty.split('<')[0]: return 'map'
    if 'string::String' in ty.split('<')[0]: return 'str'
    return 'vec'
def inner(ty):
    i = ty.find('<')
    return ty[i + 1:] if i >= 0 else ''
@reg('Iterator::collect', 'Itertools::collect_vec', 'Itertools::try_collect', 'FromIterator::from_iter', 'Iterator::try_collect')
def _(I_, st, F, args, dty):
    ps = parts_of(I_.full(st, args[0]))
    ty = dty or ''
    if not ty and F.get('a'): ty = F['a'][-1]
    if ty.startswith((RESULT, OPTION)):
        A, okn, mkS, N = (RESULT, 'Ok', Ok, ERRV) if ty.startswith(RESULT) else (OPTION, 'Some', Some, NONE)
        bad = FALSE; out = []
        for q, g, v in ps:
            k = is_variant(v, A, okn)
            bad = OR(bad, any_(q, AND(g, NOT(k))))
            out.append((q, g, getvf(v, okn, '0')))
        it = inner(ty)
        if it.startswith('()'): r = UNIT
        else: r = coll(kind_of(it), tuple(out))
        return R2(st, NOT(bad), mkS(r), N)
    return st, coll(kind_of(ty), ps)
@reg('Itertools::map_ok', 'Itertools::filter_map_ok', 'Itertools::filter_ok', 'Itertools::and_then_ok')
def _(I_, st, F, args, dty):
    n = short(F['n']).split('::')[1]
    ps = parts_of(I_.full(st, args[0]))
    def f(s, x):
        def ok(s, y): return I_.call_value(s, args[1], [y])
        return I_.case(s, x, RESULT, {'Ok': ok, 'Err': lambda s, y: (s, mk('undef'))})
    st, o = over(I_, st, ps, f)
    out = []
    for q, g, x, r in o:
        k = rok(x)
        if n == 'map_ok': out.append((q, g, phi([(k, Ok(r)), (NOT(k), ERRV)])))
        elif n == 'filter_map_ok':
            out.append((q, AND(g, OR(NOT(k), osome(r))), phi([(k, Ok(getvf(r, 'Some', '0'))), (NOT(k), ERRV)])))
        else: out.append((q, AND(g, OR(NOT(k), truth(r))), x))
    return st, mk('iter', tuple(out))
@reg('Iterator::max_by', 'Iterator::min_by', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max', 'Iterator::min', 'Iterator::reduce')
def _(I_, st, F, args, dty):
    ps = parts_of(I_.full(st, args[0]))
    rs = []
    n = short(F['n']).split('::')[1]
    if len(args) > 1 and n.endswith('_by'):
        # the comparator is recorded on two generic elements
        a, b = mk('p', '?cmp_a'), mk('p', '?cmp_b')
        st, r = I_.call_value(st, args[1], [a, b]); rs = [r]
    elif len(args) > 1 and n.endswith('key'):
        a = mk('p', '?cmp_a')
        st, r = I_.call_value(st, args[1], [a]); rs = [r]
    f = B.any(any_(q, g) for q, g, _ in ps)
    return R2(st, f, Some(mk('call', n, mk('coll', 'vec', ps), *rs)), NONE)
@reg('Itertools::join', 'slice::join')
def _(I_, st, F, args, dty): return st, mk('call', 'join', coll('vec', parts_of(I_.full(st, args[0]))), *args[1:])
@reg('Iterator::partition')
def _(I_, st, F, args, dty):
    st, o = over(I_, st, parts_of(I_.full(st, args[0])), lambda s, x: I_.call_value(s, args[1], [x]))
    a = coll('vec', tuple(p for p in ((q, AND(g, truth(r)), x) for q, g, x, r in o) if p[1]))
    b = coll('vec', tuple(p for p in ((q, AND(g, NOT(truth(r))), x) for q, g, x, r in o) if p[1]))
    return st, mk('tup', a, b)
@reg('Iterator::unzip')
def _(I_, st, F, args, dty):
    ps = parts_of(I_.full(st, args[0]))
    return st, mk('tup', coll('vec', tuple((q, g, getf(v, '0')) for q, g, v in ps)), coll('vec', tuple((q, g, getf(v, '1')) for q, g, v in ps)))
@reg('Iterator::inspect')
def _(I_, st, F, args, dty): return st, args[0]

# ------------------------------------------------------------------ cosmwasm
def response(msgs, data): return mk('adt', RESP, 'Response', ('messages', 'data'), (msgs, data))
@reg('Response::new')
def _(I_, st, F, args, dty): return st, response(coll('vec', ()), NONE)
def resp_add(r, parts):
    def f(x):
        if x.op != 'adt': return mk('call', 'resp?', x)
        return response(append_parts(x.a[3][0], parts), x.a[3][1])
    return lift(r, f)
def submsg(m, id_=None, on='Never'):
    return mk('adt', SUB, 'SubMsg', ('msg', 'id', 'reply_on'), (to_cosmos(m), id_ if id_ is not None else ZERO, S(on)))
def to_cosmos(m):
    if m.op == 'phi': return phi([(g, to_cosmos(x)) for g, x in m.a[0]])
    if m.op == 'adt':
        if m.a[0] == WASM: return adt(COSMOS, 'Wasm', ('0',), (m,))
        if m.a[0] == BANK: return adt(COSMOS, 'Bank', ('0',), (m,))
    return m
@reg('Response::add_message')
def _(I_, st, F, args, dty):
    return st, resp_add(I_.full(st, args[0]), [((), TRUE, submsg(I_.full(st, args[1])))])
@reg('Response::add_messages')
def _(I_, st, F, args, dty):
    return st, resp_add(I_.full(st, args[0]), [(q, g, submsg(v)) for q, g, v in parts_of(I_.full(st, args[1]))])
@reg('Response::add_submessage')
def _(I_, st, F, args, dty):
    return st, resp_add(I_.full(st, args[0]), [((), TRUE, I_.full(st, args[1]))])
@reg('Response::add_submessages')
def _(I_, st, F, args, dty):
    return st, resp_add(I_.full(st, args[0]), parts_of(I_.full(st, args[1])))
@reg('Response::add_attribute', 'Response::add_attributes', 'Response::add_event', 'Response::add_events')
def _(I_, st, F, args, dty):
    if short(F['n']) == 'Response::add_attribute': I_.attrs.append((st.pc, I_.full(st, args[1]), I_.full(st, args[2])))
    return st, I_.full(st, args[0])
@reg('Response::set_data')
def _(I_, st, F, args, dty):
    d = I_.full(st, args[1])
    return st, lift(I_.full(st, args[0]), lambda x: response(x.a[3][0], Some(d)) if x.op == 'adt' else x)
@reg('SubMsg::new')
def _(I_, st, F, args, dty): return st, submsg(I_.full(st, args[0]))
@reg('SubMsg::reply_always', 'SubMsg::reply_on_success', 'SubMsg::reply_on_error')
def _(I_, st, F, args, dty):
    on = {'reply_always': 'Always', 'reply_on_success': 'Success', 'reply_on_error': 'Error'}[short(F['n']).split('::')[1]]
    return st, submsg(I_.full(st, args[0]), I_.full(st, args[1]), on)
@reg('SubMsg::with_gas_limit')
def _(I_, st, F, args, dty): return st, I_.full(st, args[0])
def json_(x): return mk('json', x)
@reg('serde::to_json_binary', 'binary::to_json_binary', 'cosmwasm_std::to_json_binary', 'cosmwasm_std::to_binary', 'serde::to_binary', 'serde::to_json_vec', 'serde::to_json_string')
def _(I_, st, F, args, dty): return st, Ok(json_(I_.full(st, args[0])))
@reg('ser::to_string', 'ser::to_vec')
def _(I_, st, F, args, dty): return st, Ok(json_(I_.full(st, args[0])))
def unjson(I_, st, v, dty):
    if v.op == 'json': return st, Ok(v.a[0])
    if v.op == 'phi' and all(x.op == 'json' for _, x in v.a[0]): return st, Ok(phi([(g, x.a[0]) for g, x in v.a[0]]))
    t = dty or ''
    m = re.match(r'core::result::Result<(.*)$', t)
    ty = t
    if m:
        d = 0; s = m.group(1)
        for i, c in enumerate(s):
            if c == '<': d += 1
            elif c == '>': d -= 1
            if (c == ',' and d == 0) or d < 0: s = s[:i]; break
        ty = s
    return R2(st, atom('jsonok', v, ty), Ok(mk('parsed', v, ty)), ERRV)
@reg('serde::from_json', 'serde::from_binary', 'serde::from_slice', 'cosmwasm_std::from_json', 'de::from_str', 'de::from_slice', 'serde::from_json_str_')
def _(I_, st, F, args, dty): return unjson(I_, st, I_.full(st, args[0]), dty)
@reg('cosmos_msg::wasm_execute')
def _(I_, st, F, args, dty):
    a, m, f = [I_.full(st, x) for x in args]
    return st, Ok(adt(WASM, 'Execute', ('contract_addr', 'msg', 'funds'), (a, json_(m), f)))
@reg('cosmos_msg::wasm_instantiate')
def _(I_, st, F, args, dty):
    c, m, f, l = [I_.full(st, x) for x in args]
    return st, Ok(adt(WASM, 'Instantiate', ('admin', 'code_id', 'msg', 'funds', 'label'), (NONE, c, json_(m), f, l)))
@reg('Api::addr_validate')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[1])
    def g(x):
        return valid(x)
    gg = B.any(AND(g0, valid(x)) for g0, x in alts(v))
    return R2(st, gg, Ok(v), ERRV)
def valid(x):
    return atom('valid', x)
def canon(m):
    """messages are told apart by what they serialise to: the name of the variant, not the enum it was written with"""
    if m.op == 'phi': return phi([(g, canon(x)) for g, x in m.a[0]])
    if m.op == 'adt' and m.a[0].endswith('::msg::QueryMsg'): return mk('adt', '@::msg::QueryMsg', *m.a[1:])
    return m
@reg('QuerierWrapper::query_wasm_smart')
def _(I_, st, F, args, dty):
    a, m = I_.full(st, args[1]), canon(I_.full(st, args[2]))
    return R2(st, dista('qok', a, m), Ok(dist('query', a, m)), ERRV)
@reg('QuerierWrapper::query_wasm_contract_info')
def _(I_, st, F, args, dty):
    a = I_.full(st, args[1])
    return R2(st, dista('qok', a, S('contract_info')), Ok(dist('query', a, S('contract_info'))), ERRV)
@reg('QuerierWrapper::query', 'QuerierWrapper::query_balance', 'QuerierWrapper::query_all_balances', 'QuerierWrapper::query_wasm_raw', 'QuerierWrapper::query_supply')
def _(I_, st, F, args, dty):
    a = [I_.full(st, x) for x in args[1:]]
    return R2(st, dista('qok', S(short(F['n'])), *a), Ok(dist('query', S(short(F['n'])), *a)), ERRV)
@reg('coin::coins')
def _(I_, st, F, args, dty):
    return st, coll('vec', (((), TRUE, adt(COIN, 'Coin', ('denom', 'amount'), (I_.full(st, args[1]), I_.full(st, args[0])))),))
@reg('coin::coin', 'Coin::new')
def _(I_, st, F, args, dty):
    return st, adt(COIN, 'Coin', ('denom', 'amount'), (I_.full(st, args[1]), I_.full(st, args[0])))
@reg('StdError::generic_err', 'StdError::not_found', 'StdError::parse_err')
def _(I_, st, F, args, dty): return st, ERR
@reg('cw2::set_contract_version')
def _(I_, st, F, args, dty):
    I_.save(st, 'contract_info', None, mk('tup', I_.full(st, args[1]), I_.full(st, args[2])))
    return st, Ok(UNIT)
@reg('cw2::get_contract_version', 'cw2::assert_contract_version', 'cw2::ensure_from_older_version')
def _(I_, st, F, args, dty):
    p, v = I_.load(st, 'contract_info', None)
    return R2(st, p, Ok(v), ERRV)
@reg('parse_reply::parse_reply_instantiate_data', 'cw_utils::parse_reply_instantiate_data')
def _(I_, st, F, args, dty):
    m = I_.full(st, args[0])
    return R2(st, atom('replyok', m), Ok(mk('reply', m)), ERRV)
@reg('SubMsgResult::into_result')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); X = 'cosmwasm_std::results::submessages::SubMsgResult'
    g = is_variant(v, X, 'Ok')
    return R2(st, g, Ok(getvf(v, 'Ok', '0')), ERRV)
@reg('SubMsgResult::is_ok')
def _(I_, st, F, args, dty): return st, bl(is_variant(I_.full(st, args[0]), 'cosmwasm_std::results::submessages::SubMsgResult', 'Ok'))
@reg('SubMsgResult::is_err')
def _(I_, st, F, args, dty): return st, bl(NOT(is_variant(I_.full(st, args[0]), 'cosmwasm_std::results::submessages::SubMsgResult', 'Ok')))

# ------------------------------------------------------------------ cw-asset
def asset(info, amount): return adt(ASSET, 'AssetBase', ('info', 'amount'), (info, amount))
def ainfo(var, *xs):
    return adt(ASSETINFO, var, tuple(str(i) for i in range(len(xs))), xs)
@pure('AssetBase::cw20')
def _(a, n): return asset(ainfo('Cw20', a), n)
@pure('AssetBase::native')
def _(a, n): return asset(ainfo('Native', a), n)
@pure('AssetBase::new')
def _(a, n): return asset(a, n)
@pure('AssetInfoBase::cw20')
def _(a): return ainfo('Cw20', a)
@pure('AssetInfoBase::native')
def _(a): return ainfo('Native', a)
@pure('AssetInfoBase::cw1155')
def _(a, b): return ainfo('Cw1155', a, b)
@reg('AssetBase::check', 'AssetInfoBase::check')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0])
    isinfo = short(F['n']).startswith('AssetInfo')
    gg = B.any(AND(g0, avalid(x if isinfo else getf(x, 'info'))) for g0, x in alts(v))
    return R2(st, gg, Ok(v), ERRV)
def avalid(x):
    if x.op == 'adt' and x.a[0] == ASSET: return avalid(x.a[3][0])
    if x.op == 'adt' and x.a[0] == ASSETINFO:
        if x.a[1] == 'Native': return TRUE
        return valid(x.a[3][0])
    if x.op == 'phi': return B.any(AND(g, avalid(y)) for g, y in x.a[0])
    return B.any([is_variant(x, ASSETINFO, 'Native')] + [AND(is_variant(x, ASSETINFO, n), valid(getvf(x, n, '0'))) for n in ('Cw20', 'Cw1155')])
@reg('AssetInfoBase::is_native')
def _(I_, st, F, args, dty): return st, bl(is_variant(I_.full(st, args[0]), ASSETINFO, 'Native'))
def transfer(a, to):
    """CosmosMsg that moves asset a to `to`"""
    def f(x):
        info = getf(x, 'info'); amt = getf(x, 'amount')
        if info.op == 'phi':
            return phi([(g, f(asset(i, amt))) for g, i in info.a[0]])
        if info.op == 'adt' and info.a[1] == 'Cw20':
            m = adt(CW20EXEC, 'Transfer', ('recipient', 'amount'), (to, amt))
            return Ok(adt(COSMOS, 'Wasm', ('0',), (adt(WASM, 'Execute', ('contract_addr', 'msg', 'funds'), (info.a[3][0], json_(m), coll('vec', ()))),)))
        if info.op == 'adt' and info.a[1] == 'Native':
            c = coll('vec', (((), TRUE, adt(COIN, 'Coin', ('denom', 'amount'), (info.a[3][0], amt))),))
            return Ok(adt(COSMOS, 'Bank', ('0',), (adt(BANK, 'Send', ('to_address', 'amount'), (to, c)),)))
        if info.op == 'adt': return ERRV
        g = NOT(is_variant(info, ASSETINFO, 'Cw1155')) if variants(ASSETINFO) and 'Cw1155' in variants(ASSETINFO) else TRUE
        return phi([(g, Ok(mk('transfer', x, to))), (NOT(g), ERRV)])
    return lift(a, f)
@reg('AssetBase::transfer_msg')
def _(I_, st, F, args, dty):
    return st, transfer(I_.full(st, args[0]), I_.full(st, args[1]))
@reg('AssetBase::send_msg')
def _(I_, st, F, args, dty):
    a, to, m = [I_.full(st, x) for x in args]
    info = getf(a, 'info'); amt = getf(a, 'amount')
    def f(i):
        if i.op == 'adt' and i.a[1] == 'Cw20':
            mm = adt(CW20EXEC, 'Send', ('contract', 'amount', 'msg'), (to, amt, m))
            return Ok(adt(COSMOS, 'Wasm', ('0',), (adt(WASM, 'Execute', ('contract_addr', 'msg', 'funds'), (i.a[3][0], json_(mm), coll('vec', ()))),)))
        if i.op == 'adt': return ERRV
        g = is_variant(i, ASSETINFO, 'Cw20')
        mm = adt(CW20EXEC, 'Send', ('contract', 'amount', 'msg'), (to, amt, m))
        return phi([(g, Ok(adt(COSMOS, 'Wasm', ('0',), (adt(WASM, 'Execute', ('contract_addr', 'msg', 'funds'), (getvf(i, 'Cw20', '0'), json_(mm), coll('vec', ()))),)))), (NOT(g), ERRV)])
    return st, lift(info, f)

# ------------------------------------------------------------------ cw-storage-plus
def nsof(v):
    if v.op == 's': return v.a[0]
    return pp(v)
@pure('Item::new')
def _(n): return mk('item', nsof(n))
@pure('Map::new')
def _(n): return mk('map', nsof(n))
@pure('IndexedMap::new')
def _(n, ix): return mk('adt', 'IndexedMap', 'IndexedMap', ('ns', 'idx'), (n, ix))
@pure('SnapshotItem::new', 'SnapshotMap::new')
def _(n, *r): return mk('item', nsof(n), *r)
@pure('MultiIndex::new', 'UniqueIndex::new')
def _(f, pk, ix): return mk('mindex', nsof(pk), nsof(ix), f)
def cns(v):
    if v.op in ('item', 'map', 'mindex'): return v.a[0]
    if v.op == 'adt' and v.a[1] == 'IndexedMap': return nsof(v.a[3][0])
    return pp(v)
@reg('Item::load', 'SnapshotItem::load', 'Item::may_load', 'SnapshotItem::may_load', 'Item::exists')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); p, v = I_.load(st, ns, None)
    n = short(F['n'])
    if n.endswith('may_load'): return st, Ok(phi([(AND(st.pc, p), Some(v)), (AND(st.pc, NOT(p)), NONE)]))
    if n.endswith('exists'): return st, bl(p)
    return R2(st, p, Ok(v), ERRV)
@reg('SnapshotItem::may_load_at_height')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); h = I_.full(st, args[2])
    return st, Ok(phi([(atom('has@h', ns, h), Some(mk('load@h', ns, h))), (NOT(atom('has@h', ns, h)), NONE)]))
@reg('SnapshotMap::may_load_at_height')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); k, h = I_.full(st, args[2]), I_.full(st, args[3])
    return st, Ok(phi([(atom('has@h', ns, k, h), Some(mk('load@h', ns, k, h))), (NOT(atom('has@h', ns, k, h)), NONE)]))
@reg('Item::save')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), None, I_.full(st, args[2])); return st, Ok(UNIT)
@reg('SnapshotItem::save')
def _(I_, st, F, args, dty):
    ns, v, h = cns(I_.full(st, args[0])), I_.full(st, args[2]), I_.full(st, args[3])
    I_.save(st, ns, None, v, aux=('height', h)); I_.save(st, ns + '#at', h, v); return st, Ok(UNIT)
@reg('Item::remove', 'SnapshotItem::remove')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), None, None, 'remove')
    return st, (Ok(UNIT) if dty and dty.startswith(RESULT) else UNIT)
@reg('Item::update')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); p, v = I_.load(st, ns, None)
    def go(s, x):
        s, r = I_.call_value(s, args[2], [v])
        def ok(s, y):
            I_.save(s, ns, None, y); return s, Ok(y)
        return I_.case(s, r, RESULT, {'Ok': ok, 'Err': lambda s, y: (s, ERRV)})
    outs = []
    if AND(st.pc, NOT(p)): outs.append((st.fork(AND(st.pc, NOT(p))), ERRV))
    if AND(st.pc, p): outs.append(go(st.fork(AND(st.pc, p)), None))
    return I_.join(outs)
def is_map(F): return True
@reg('Map::load', 'IndexedMap::load', 'Map::may_load', 'IndexedMap::may_load', 'Map::has', 'IndexedMap::has', 'SnapshotMap::load', 'SnapshotMap::may_load', 'SnapshotMap::has')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); k = I_.full(st, args[2]); p, v = I_.load(st, ns, k)
    n = short(F['n'])
    if n.endswith('may_load'): return st, Ok(phi([(AND(st.pc, p), Some(v)), (AND(st.pc, NOT(p)), NONE)]))
    if n.endswith('has'): return st, bl(p)
    return R2(st, p, Ok(v), ERRV)
@reg('Map::save', 'IndexedMap::save')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), I_.full(st, args[2]), I_.full(st, args[3])); return st, Ok(UNIT)
@reg('SnapshotMap::save')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), I_.full(st, args[2]), I_.full(st, args[3]), aux=('height', I_.full(st, args[4]))); return st, Ok(UNIT)
@reg('Map::remove', 'IndexedMap::remove', 'SnapshotMap::remove')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), I_.full(st, args[2]), None, 'remove')
    return st, (Ok(UNIT) if dty and dty.startswith(RESULT) else UNIT)
@reg('Map::clear', 'IndexedMap::clear')
def _(I_, st, F, args, dty):
    I_.save(st, cns(I_.full(st, args[0])), None, None, 'clear'); return st, UNIT
@reg('Map::update', 'IndexedMap::update')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); k = I_.full(st, args[2]); p, v = I_.load(st, ns, k)
    o = phi([(AND(st.pc, p), Some(v)), (AND(st.pc, NOT(p)), NONE)])
    st, r = I_.call_value(st, args[3], [o])
    def ok(s, y):
        I_.save(s, ns, k, y); return s, Ok(y)
    return I_.case(st, r, RESULT, {'Ok': ok, 'Err': lambda s, y: (s, ERRV)})
def ns_epoch(st, ns):
    es = [e for e in st.log if e.ns == ns]
    return len(es)
@reg('Map::is_empty', 'IndexedMap::is_empty')
def _(I_, st, F, args, dty):
    ns = cns(I_.full(st, args[0])); n = ns_epoch(st, ns)
    if any(e.ns == ns and e.kind == 'save' and not e.quants and B.implies(st.pc, e.guard) for e in st.log[-1:]): return st, BF
    return st, bl(atom('mapempty', ns, n))
@reg('Map::prefix', 'IndexedMap::prefix', 'Map::sub_prefix', 'IndexedMap::sub_prefix', 'MultiIndex::prefix', 'MultiIndex::sub_prefix')
def _(I_, st, F, args, dty):
    c = I_.full(st, args[0]); p = I_.full(st, args[1])
    return st, mk('prefix', c, p)
@reg('Map::range', 'IndexedMap::range', 'Prefix::range', 'MultiIndex::range', 'Map::keys', 'IndexedMap::keys', 'Prefix::keys', 'Map::range_raw', 'Prefix::range_raw', 'Prefix::keys_raw')
def _(I_, st, F, args, dty):
    c = I_.full(st, args[0])
    mn, mx, order = [I_.full(st, x) for x in args[2:5]]
    pre = None; base = c
    if c.op == 'prefix': base, pre = c.a
    ns = cns(base)
    ix = base.a[1] if base.op == 'mindex' else ''
    if base.op == 'mindex' and (ns, ix) not in TM.IDX:
        TM.IDX[ns, ix] = I_.call_value(st.fork(TRUE), base.a[2], [mk('p', 'pk'), TM.REC])[1]
    s = mk('range', ns, ix, pre if pre is not None else UNIT, mn, mx, order, ns_epoch(st, ns))
    k = mk('rkey', s)
    if base.op == 'mindex' or pre is None: fk = k
    else: fk = mk('tup', *(pre.a if pre.op == 'tup' else (pre,)), k)
    if 'keys' in F['n'].rsplit('::', 1)[1]: return st, mk('iter', (((s,), TRUE, Ok(k)),))
    p, v = I_.load(st, ns, fk)
    # an enumerated entry exists
    h = atom('has', ns, fk)
    i, = B.support(h)
    v2 = phi([(B.cofactor(g, i, 1), x) for g, x in alts(v)])
    return st, mk('iter', (((s,), TRUE, Ok(mk('tup', k, v2))),))
@pure('Bound::exclusive', 'Bound::inclusive', 'Bound::exclusive_', 'PrefixBound::inclusive')
def _(k): return mk('call', 'bound', k)
@pure('Bound::exclusive')
def _(k): return adt('Bound', 'Exclusive', ('0',), (k,))
@pure('Bound::inclusive')
def _(k): return adt('Bound', 'Inclusive', ('0',), (k,))

# ------------------------------------------------------------------ hashing etc. stays opaque but deterministic
for n in ('Digest::finalize', 'Digest::digest', 'ToBase32::to_base32', 'bech32_no_std::encode', 'Message::encode_to_vec', 'GenericArray::as_slice'):
    def _h(I_, st, F, args, dty, n=n):
        v = mk('call', n.split('::')[-1], *[I_.full(st, a) for a in args])
        if dty and dty.startswith(RESULT): return R2(st, atom('callok', v), Ok(v), ERRV)
        return st, v
    L[n] = _h
@reg('Digest::new')
def _(I_, st, F, args, dty): return st, mk('call', 'hasher')
@reg('Digest::update')
def _(I_, st, F, args, dty):
    v = I_.full(st, args[0]); I_.ptr_write(st, args[0], mk('call', 'hash_update', v, I_.full(st, args[1]))); return st, UNIT
