"""Generates the harness crate: one exported function per operation, all with the signature
fn(out: *mut u8, in: *const u8), used both as the entry points of the symbolic executor and
as the native replayer's operations."""
from params import FIELDS, CURVES

# layout of inputs/outputs: list of kinds: 'F' field element, 'i32' 'i16' 'i8', 'b' bool, 'B' nb bytes,
# 'u64', 'P' four field elements, ('S',n) n bytes


EXT = 40        # bytes of a long buffer (kind 'L') beyond the encoding


def size(kind, f):
    if kind == 'F':
        return 8 * f.N
    if kind == 'P':
        return 32 * f.N
    if kind in ('i32', 'i16', 'i8', 'b', 'u64'):
        return 8
    if kind == 'B':
        return (f.nb + 7) // 8 * 8
    if kind == 'L':
        return (f.nb + EXT + 7) // 8 * 8
    if kind == 'H':
        return 160
    if kind == 'R':
        return 8 * 4 * f.N
    raise KeyError(kind)


def offsets(kinds, f):
    o = 0
    out = []
    for k in kinds:
        out.append(o)
        o += size(k, f)
    return out, o


def rd(kind, off):
    return {
        'F': '*(i.add({o}) as *const F)', 'i32': '*(i.add({o}) as *const i32)', 'i16': '*(i.add({o}) as *const i16)',
        'i8': '*(i.add({o}) as *const i8)', 'b': '(*(i.add({o}) as *const u8) & 1) != 0', 'u64': '*(i.add({o}) as *const u64)',
        'B': '*(i.add({o}) as *const [u8; NB])', 'L': '*(i.add({o}) as *const [u8; NB + %d])' % EXT, 'P': '*(i.add({o}) as *const [F; 4])', 'R': '*(i.add({o}) as *const [u64; 4 * N])',
    }[kind].format(o=off)


def wr(kind, off, e):
    return {
        'F': '*(o.add({o}) as *mut F) = {e};', 'b': '*(o.add({o}) as *mut u8) = ({e}) as u8;',
        'B': '*(o.add({o}) as *mut [u8; NB]) = {e};', 'L': '*(o.add({o}) as *mut [u8; NB + %d]) = {e};' % EXT, 'u64': '*(o.add({o}) as *mut u64) = ({e}) as u64;',
        'P': '*(o.add({o}) as *mut [F; 4]) = {e};', 'H': '*(o.add({o}) as *mut [u8; 160]) = {e};',
    }[kind].format(o=off, e=e)


class Op(object):
    def __init__(self, name, ins, outs, body, res):
        """ins: [(var,kind)], outs: [kind], body: statements, res: list of expressions"""
        self.name, self.ins, self.outs, self.body, self.res = name, ins, outs, body, res
        self.mut = True


def ops():
    L = []

    def op(name, ins, outs, body, res):
        L.append(Op(name, [tuple(x.split(':')) for x in ins.split()], outs.split(), body, res))
    AB = 'x:F y:F'
    op('add', AB, 'F', 'x += &y;', ['x'])
    op('sub', AB, 'F', 'x -= &y;', ['x'])
    op('neg', 'x:F', 'F', '', ['-x'])
    op('mul', AB, 'F', 'x *= &y;', ['x'])
    op('square', 'x:F', 'F', 'x.square();', ['x'])
    op('small_add', 'x:F k:i32', 'F', 'x.small_add_assign(k);', ['x'])
    op('small_sub', 'x:F k:i32', 'F', 'x.small_sub_assign(k);', ['x'])
    op('small_mul', 'x:F k:i32', 'F', 'x.small_mul_assign(k);', ['x'])
    op('normalize', 'x:F', 'F', 'x.normalize();', ['x'])
    op('normalize_eq', AB, 'b F F', 'let r = x.normalize_eq(&mut y);', ['r', 'x', 'y'])
    op('normalize_self_eq', AB, 'b F F', 'let r = x.normalize_self_eq(&y);', ['r', 'x', 'y'])
    op('pack', 'x:F', 'B F', 'let mut b = [0u8; NB]; x.pack(&mut b);', ['b', 'x'])
    op('packed', 'x:F', 'B F', 'let b = x.packed();', ['b', 'x'])
    op('pack_normalized', 'x:F', 'B F', 'let mut b = [0u8; NB]; x.pack_normalized(&mut b);', ['b', 'x'])
    op('unpack', 'x:F b:B', 'F', 'x.unpack(&b);', ['x'])
    op('unpacked', 'b:B', 'F', 'let x = F::unpacked(&b);', ['x'])
    op('unpack_pack', 'b:B', 'B', 'let mut x = F::unpacked(&b); let mut c = [0u8; NB]; x.pack(&mut c);', ['c'])
    op('pack_unpack', 'x:F', 'F', 'let mut c = [0u8; NB]; x.pack(&mut c); let y = F::unpacked(&c);', ['y'])
    # buffers of k bytes, nb <= k <= nb + EXT
    op('pack_into', 'x:F c:L k:u64', 'L F', 'x.pack(&mut c[..k as usize]);', ['c', 'x'])
    op('pack_normalized_into', 'x:F c:L k:u64', 'L', 'x.pack_normalized(&mut c[..k as usize]);', ['c'])
    op('unpack_from', 'x:F c:L k:u64', 'F', 'x.unpack(&c[..k as usize]);', ['x'])
    op('unpacked_from', 'c:L k:u64', 'F', 'let x = F::unpacked(&c[..k as usize]);', ['x'])
    # buffers of any length k >= nb: of the symbolic run only the first nb + EXT bytes exist (an access beyond them is an
    # error of the run); the native form has k bytes (at most 65536) and counts the bytes behind that were changed
    ptr = 'let s = &mut *std::ptr::slice_from_raw_parts_mut(c.as_mut_ptr(), k as usize);'
    vec = 'let n = (k as usize).min(65536); let l = c.len(); let mut s = vec![c[l - 1]; n]; let m = n.min(l); s[..m].copy_from_slice(&c[..m]);'
    for sfx, pre, back in (('any', ptr, ''), ('vec', vec, ' c[..m].copy_from_slice(&s[..m]); let z = s[m..].iter().filter(|b| **b != c[l - 1]).count();')):
        op('pack_' + sfx, 'x:F c:L k:u64', 'L u64', pre + ' x.pack(&mut s[..]);' + (back or ' let z = 0;'), ['c', 'z'])
        op('pack_normalized_' + sfx, 'x:F c:L k:u64', 'L u64', pre + ' x.pack_normalized(&mut s[..]);' + (back or ' let z = 0;'), ['c', 'z'])
        op('unpack_' + sfx, 'x:F c:L k:u64', 'F', pre + ' x.unpack(&s[..]);', ['x'])
        op('unpacked_' + sfx, 'c:L k:u64', 'F', pre + ' let x = F::unpacked(&s[..]);', ['x'])
    op('invert', 'x:F', 'F', 'x.invert();', ['x'])
    op('inverted', 'x:F', 'F', '', ['x.inverted()'])
    op('div_assign', AB, 'F', 'x /= &y;', ['x'])
    op('div_assign_val', AB, 'F', 'x /= y;', ['x'])
    op('div_ref', AB, 'F', '', ['&x / &y'])
    op('div_val', AB, 'F', '', ['x / y'])
    op('legendre', 'x:F', 'F', '', ['x.legendre()'])
    op('sqrt', 'x:F', 'F', '', ['x.sqrt()'])
    op('bit', 'x:F k:u64', 'b F', 'let r = x.bit(k as usize);', ['r', 'x'])
    op('bit_normalized', 'x:F k:u64', 'b', '', ['x.bit_normalized(k as usize)'])
    op('fill', 'x:F k:b', 'F', 'x.fill(k);', ['x'])
    op('filled', 'k:b', 'F', '', ['F::filled(k)'])
    op('mask_filled', 'k:b', 'F', 'let m = <M as PrimeFieldMask>::filled(k);', ['*(&m as *const M as *const F)'])
    op('mask_fill', 'x:F k:b', 'F', 'let m = &mut *(&mut x as *mut F as *mut M); PrimeFieldMask::fill(m, k);', ['x'])
    for o in ('bitand', 'bitor'):
        op('normalized_' + o, AB, 'F', 'x.normalized_%s(&y);' % o, ['x'])
        op('normalize_' + o, AB, 'F F', 'x.normalize_%s(&mut y);' % o, ['x', 'y'])
        op('normalize_self_' + o, AB, 'F', 'x.normalize_self_%s(&y);' % o, ['x'])
    op('mask_and', 'x:F k:b', 'F', 'let m = F::filled(k); x.normalized_bitand(&m);', ['x'])
    op('mask_or', 'x:F k:b', 'F', 'let m = F::filled(k); x.normalized_bitor(&m);', ['x'])
    op('mask_select', 'x:F y:F k:b', 'F', 'let m = F::filled(k); let mm = F::filled(!k); x.normalized_bitand(&m); y.normalized_bitand(&mm); x.normalized_bitor(&y);', ['x'])
    op('rand', 'r:R', 'F', 'let mut g = Replay { v: &r, i: 0 }; let x = <F as Rand>::rand(&mut g);', ['x'])
    op('consts', '', 'F F F F F F F F u64 u64', '', ['ZERO', 'ONE', 'M_ONE', 'MODULUS', '<F as PrimeField>::zero()', '<F as PrimeField>::one()',
                                                  '<F as PrimeField>::m_one()', '<F as PrimeField>::modulus()', '<F as PrimeField>::nbits()', '<F as Pack>::nbytes()'])
    for c, nm in (('x', 'lowerhex'), ('X', 'upperhex')):
        op(nm, 'x:F', 'H F', 'let s = ::std::format!("{:%s}", x); let mut h = [0u8; 160]; let b = s.as_bytes(); let mut k = 0; while k < b.len() && k < 160 { h[k] = b[k]; k += 1; }' % c, ['h', 'x'])
    # other operator forms: (form, name of the primary operation, code); primary has the same inputs
    for o, s in (('add', '+'), ('sub', '-'), ('mul', '*')):
        op(o + '_assign_val', AB, 'F', 'x %s= y;' % s, ['x'])
        op(o + '_ref', AB, 'F', '', ['&x %s &y' % s])
        op(o + '_val', AB, 'F', '', ['x %s y' % s])
        for t in ('i32', 'i16', 'i8'):
            I = 'x:F k:' + t
            op('%s_assign_%s' % (o, t), I, 'F', 'x %s= k;' % s, ['x'])
            op('%s_ref_%s' % (o, t), I, 'F', '', ['&x %s k' % s])
            op('%s_val_%s' % (o, t), I, 'F', '', ['x %s k' % s])
            if o != 'sub':
                op('%s_rev_%s' % (o, t), I, 'F', '', ['k %s &x' % s])
        op('small_%s_fn' % o, 'x:F k:i32', 'F', '', ['x.small_%s(k)' % o])
    op('squared', 'x:F', 'F', '', ['x.squared()'])
    return L


def cops():
    """curve operations: 'P' is the quadruple (x,y,z,t)"""
    L = []

    def op(name, ins, outs, body, res):
        L.append(Op(name, [tuple(x.split(':')) for x in ins.split()], outs.split(), body, res))
    op('add', 'p:P q:P', 'P', 'let mut a = mk(&p); let b = mk(&q); a += &b;', ['un(&a)'])
    op('add_assign_val', 'p:P q:P', 'P', 'let mut a = mk(&p); let b = mk(&q); a += b;', ['un(&a)'])
    op('add_ref', 'p:P q:P', 'P', 'let a = mk(&p); let b = mk(&q);', ['un(&(&a + &b))'])
    op('add_val', 'p:P q:P', 'P', 'let a = mk(&p); let b = mk(&q);', ['un(&(a + b))'])
    op('add_self', 'p:P', 'P', 'let mut a = mk(&p); let b = a; a += b;', ['un(&a)'])
    op('double', 'p:P', 'P', 'let mut a = mk(&p); a.double();', ['un(&a)'])
    op('doubled', 'p:P', 'P', 'let a = mk(&p);', ['un(&a.doubled())'])
    op('triple', 'p:P', 'P', 'let mut a = mk(&p); a.triple();', ['un(&a)'])
    op('tripled', 'p:P', 'P', 'let a = mk(&p);', ['un(&a.tripled())'])
    op('zero', '', 'P', 'let a = <E as Point>::zero();', ['un(&a)'])
    op('init', 'p:P x:F y:F', 'P', 'let mut a = mk(&p); a.init(x, y);', ['un(&a)'])
    op('scalar_mult', 'p:P k:F', 'P F', 'let mut a = mk(&p); a.scalar_mult(&mut k);', ['un(&a)', 'k'])
    op('scalar_mult_normalized', 'p:P k:F', 'P', 'let mut a = mk(&p); a.scalar_mult_normalized(&k);', ['un(&a)'])
    op('d_val', '', 'F', '', ['<CV as EdwardsCurve>::d_val()'])
    return L


CONSTS = {
    'e221_3': ['M221_BASE_X', 'M221_BASE_Y', 'M221_ORDER', 'M_HALF'],
    'e222_117': ['E222_D', 'E222_BASE_X', 'E222_BASE_Y', 'E222_ORDER'],
    'e251_9': ['CURVE1174_D', 'CURVE1174_BASE_X', 'CURVE1174_BASE_Y', 'CURVE1174_ORDER'],
    'e255_19': ['CURVE25519_BASE_X', 'CURVE25519_BASE_Y', 'CURVE25519_ORDER', 'M_HALF'],
    'e382_105': ['E382_D', 'E382_BASE_X', 'E382_BASE_Y', 'E382_ORDER'],
    'e383_187': ['M383_BASE_X', 'M383_BASE_Y', 'M383_ORDER', 'CURVE383187_BASE_X', 'CURVE383187_BASE_Y', 'CURVE383187_ORDER', 'M_HALF'],
    'e414_17': ['CURVE41417_D', 'CURVE41417_BASE_X', 'CURVE41417_BASE_Y', 'CURVE41417_ORDER'],
    'e511_187': ['M511_BASE_X', 'M511_BASE_Y', 'M511_ORDER', 'M_HALF'],
    'e521_1': ['E521_D', 'E521_BASE_X', 'E521_BASE_Y', 'E521_ORDER'],
}

OPS = {o.name: o for o in ops()}
COPS = {o.name: o for o in cops()}
for f, cs in CONSTS.items():
    pass


def const_op(f):
    cs = CONSTS[f.key]
    return Op('params', [], ['F'] * len(cs), '', list(cs))


def layout(key, opname):
    """(field, input [(var,kind,off)], insize, output [(kind,off)], outsize)"""
    from params import F, C
    if key in C:
        f = C[key].f
        o = COPS[opname]
    else:
        f = F[key]
        o = const_op(f) if opname == 'params' else OPS[opname]
    io, isz = offsets([k for _, k in o.ins], f)
    oo, osz = offsets(o.outs, f)
    return f, [(v, k, x) for (v, k), x in zip(o.ins, io)], isz, [(k, x) for k, x in zip(o.outs, oo)], osz


def fn_text(key, f, o):
    io, _ = offsets([k for _, k in o.ins], f)
    oo, _ = offsets(o.outs, f)
    s = '    #[no_mangle] pub unsafe fn h_%s_%s(o: *mut u8, i: *const u8) {\n' % (key, o.name)
    for (v, k), off in zip(o.ins, io):
        s += '        let mut %s = %s;\n' % (v, rd(k, off))
    if o.body:
        s += '        ' + o.body + '\n'
    for k, off, e in zip(o.outs, oo, o.res):
        s += '        ' + wr(k, off, e) + '\n'
    s += '    }\n'
    return s


def generate(hooks=True):
    s = '#![allow(warnings)]\nextern crate safecurves_rust as sc;\nextern crate rand;\n'
    s += 'pub struct Replay<\'a> { pub v: &\'a [u64], pub i: usize }\n'
    s += 'impl<\'a> rand::Rng for Replay<\'a> { fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } fn next_u64(&mut self) -> u64 { let n = self.v.len(); let k = (self.i / n) as u64; let mut r = self.v[self.i % n].wrapping_add(k.wrapping_mul(0x9e3779b97f4a7c15)); self.i += 1; if k > 0 { r = (r ^ (r >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); r = (r ^ (r >> 27)).wrapping_mul(0x94d049bb133111eb); r ^= r >> 31; } r } }\n'
    table = []
    for f in FIELDS:
        s += 'pub mod f_%s {\n    use sc::field::%s::*;\n    use sc::field::%s::%s as F;\n    use sc::field::%s::%s_Mask as M;\n' % (f.key, f.mod, f.mod, f.ty, f.mod, f.ty)
        s += '    use sc::field::prime_field::*; use sc::normalize::*; use sc::pack::Pack; use rand::Rand; use super::Replay;\n'
        s += '    const N: usize = %d; const NB: usize = %d;\n' % (f.N, f.nb)
        for o in list(OPS.values()) + [const_op(f)]:
            s += fn_text(f.key, f, o)
            table.append((f.key, o.name, 'f_' + f.key))
        s += '}\n'
    if hooks:
        for c in CURVES:
            f = c.f
            s += 'pub mod c_%s {\n    use sc::field::%s::%s as F; use sc::curve::edwards::*; use sc::curve::point::Point; use sc::curve::%s::%s as CV;\n' % (c.key, f.mod, f.ty, c.rmod, c.rty)
            s += '    use sc::field::prime_field::*;\n    type E = EdwardsExtended<CV>;\n    const N: usize = %d; const NB: usize = %d;\n' % (f.N, f.nb)
            s += '    #[inline(never)] fn mk(p: &[F; 4]) -> E { E::verif_from_coords(p[0], p[1], p[2], p[3]) }\n'
            s += '    #[inline(never)] fn un(e: &E) -> [F; 4] { e.verif_coords() }\n'
            for o in COPS.values():
                s += fn_text(c.key, f, o)
                table.append((c.key, o.name, 'c_' + c.key))
            s += '}\n'
    s += 'pub static TABLE: &[(&str, unsafe fn(*mut u8, *const u8))] = &[\n'
    for k, o, m in table:
        s += '    ("%s.%s", %s::h_%s_%s),\n' % (k, o, m, k, o)
    s += '];\n'
    return s


MAIN = r'''
use std::io::{BufRead, Write};
fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 {
        // one operation on the raw bytes of standard input, no output: for instruction/address traces
        let f = scverif::TABLE.iter().find(|e| e.0 == a[1]).unwrap().1;
        let osz: usize = a[2].parse().unwrap();
        let mut ib: Vec<u64> = vec![0; 8192];
        let mut ob: Vec<u64> = vec![0; osz / 8 + 2];
        unsafe {
            let b = std::slice::from_raw_parts_mut(ib.as_mut_ptr() as *mut u8, 65536);
            std::io::Read::read(&mut std::io::stdin(), b).unwrap();
            f(ob.as_mut_ptr() as *mut u8, ib.as_ptr() as *const u8);
        }
        std::process::exit(0);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split(' ');
        let name = it.next().unwrap().to_string();
        if name == "LOOP" {
            // LOOP reps len element (name osz offset input)*: feed the element through the operations again and again
            let reps: usize = it.next().unwrap().parse().unwrap();
            let mut cur = hex(it.next().unwrap());
            let mut prog: Vec<(unsafe fn(*mut u8, *const u8), usize, Vec<u64>, Vec<u64>)> = vec![];
            while let Some(n) = it.next() {
                let f = scverif::TABLE.iter().find(|e| e.0 == n).unwrap().1;
                let osz: usize = it.next().unwrap().parse().unwrap();
                let off: usize = it.next().unwrap().parse().unwrap();
                let inp = hex(it.next().unwrap());
                let mut ib: Vec<u64> = vec![0; inp.len() / 8 + 2];
                unsafe { std::ptr::copy_nonoverlapping(inp.as_ptr(), ib.as_mut_ptr() as *mut u8, inp.len()); }
                prog.push((f, off, ib, vec![0; osz / 8 + 2]));
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for _ in 0..reps {
                    for (f, off, ib, ob) in prog.iter_mut() {
                        unsafe {
                            std::ptr::copy_nonoverlapping(cur.as_ptr(), (ib.as_mut_ptr() as *mut u8).add(*off), cur.len());
                            f(ob.as_mut_ptr() as *mut u8, ib.as_ptr() as *const u8);
                            std::ptr::copy_nonoverlapping(ob.as_ptr() as *const u8, cur.as_mut_ptr(), cur.len());
                        }
                    }
                }
            }));
            match r {
                Err(_) => writeln!(out, "PANIC").unwrap(),
                Ok(()) => writeln!(out, "{}", cur.iter().map(|b| format!("{:02x}", b)).collect::<String>()).unwrap(),
            }
            out.flush().unwrap();
            continue;
        }
        let osz: usize = it.next().unwrap().parse().unwrap();
        let inp = hex(it.next().unwrap_or(""));
        let f = match scverif::TABLE.iter().find(|e| e.0 == name) { Some(e) => e.1, None => { writeln!(out, "UNKNOWN").unwrap(); out.flush().unwrap(); continue } };
        // 8-aligned buffers
        let mut ib: Vec<u64> = vec![0; inp.len() / 8 + 2];
        unsafe { std::ptr::copy_nonoverlapping(inp.as_ptr(), ib.as_mut_ptr() as *mut u8, inp.len()); }
        let mut ob: Vec<u64> = vec![0; osz / 8 + 2];
        let (ip, op) = (ib.as_ptr() as usize, ob.as_mut_ptr() as usize);
        let r = std::panic::catch_unwind(move || unsafe { f(op as *mut u8, ip as *const u8) });
        match r {
            Err(_) => writeln!(out, "PANIC").unwrap(),
            Ok(()) => {
                let bytes = unsafe { std::slice::from_raw_parts(ob.as_ptr() as *const u8, osz) };
                let s: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
                writeln!(out, "{}", s).unwrap();
            }
        }
        out.flush().unwrap();
    }
}
'''

CARGO = '''[package]
name = "scverif"
version = "0.0.0"
edition = "2021"

[dependencies]
safecurves-rust = { path = "%s" }
rand = "0.3"

[lib]
path = "src/lib.rs"

[[bin]]
name = "replay"
path = "src/main.rs"

[profile.dev]
debug = 0
incremental = false

[profile.release]
debug = 0
incremental = false

[workspace]
'''
