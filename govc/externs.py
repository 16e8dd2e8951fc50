"""Models of everything outside the module: the standard library, the operating
system and the terminal UI.  Every model used is recorded as an assumption."""
import datetime
import re
import z3
from vals import *

MSG = 'terminal output (sarwin.*Print*, gocui) has no effect on protocol state'


class HashV(IfaceV):
    __slots__ = ('size', 'alg', 'fed')


class GFile:
    pass


class Externs:
    def __init__(self, eng):
        self.e = eng
        self.T = eng.T
        self.S = eng.S
        self.used = set()
        self.floats = {}
        self.opened, self.fpaths, self.keepf, self.sysinfo = {}, {}, [], {}
        self.table = {
            'errors.New': self.errnew, 'fmt.Errorf': self.errnew,
            'fmt.Sprintf': self.sprintf, 'fmt.Sprint': self.sprint,
            'fmt.Println': self.printres, 'fmt.Printf': self.printres, 'fmt.Fprint': self.printres, 'fmt.Fprintln': self.printres,
            'log.Println': self.nop, 'log.Printf': self.nop,
            'log.Fatal': self.exit, 'log.Fatalln': self.exit, 'log.Fatalf': self.exit, 'os.Exit': self.exit,
            'log.Panic': self.exit, 'log.Panicln': self.exit, 'log.Panicf': self.exit,
            'strings.Split': self.split, 'strings.SplitN': self.splitn, 'strings.Fields': self.fields,
            'strings.Replace': self.replace, 'strings.ReplaceAll': self.replace, 'strings.TrimRight': self.trimright,
            'strings.TrimSpace': self.uf1('trimspace', lambda b: b.strip()), 'strings.Contains': self.contains,
            'strings.Count': self.count, 'strings.Repeat': self.freshstr, 'strings.HasPrefix': self.hasprefix,
            'strings.Join': self.join, 'strings.TrimSuffix': self.trimsuffix, 'strings.IndexByte': self.indexbyte, 'strings.Index': self.index, 'strings.IndexRune': self.indexrune, 'strings.ContainsRune': self.containsrune,
            'strings.ToLower': self.uf1('tolower', lambda b: b.lower()),
            'bytes.IndexByte': self.bindexbyte, 'bytes.Equal': self.bytesequal,
            'strconv.Itoa': self.itoa, 'strconv.Atoi': self.atoi, 'strconv.ParseUint': self.parseuint,
            'path.Clean': self.pathclean, 'path/filepath.Clean': self.pathclean,
            'path.Join': self.pathjoin, 'path/filepath.Join': self.pathjoin,
            '(encoding/binary.bigEndian).PutUint16': self.put(2, True), '(encoding/binary.bigEndian).PutUint32': self.put(4, True),
            '(encoding/binary.bigEndian).PutUint64': self.put(8, True), '(encoding/binary.bigEndian).Uint16': self.getu(2, True),
            '(encoding/binary.bigEndian).Uint32': self.getu(4, True), '(encoding/binary.bigEndian).Uint64': self.getu(8, True),
            '(encoding/binary.bigEndian).AppendUint16': self.appendu(2), '(encoding/binary.bigEndian).AppendUint32': self.appendu(4),
            '(encoding/binary.bigEndian).AppendUint64': self.appendu(8),
            '(encoding/binary.littleEndian).PutUint16': self.put(2, False), '(encoding/binary.littleEndian).PutUint32': self.put(4, False),
            '(encoding/binary.littleEndian).PutUint64': self.put(8, False), '(encoding/binary.littleEndian).Uint16': self.getu(2, False),
            '(encoding/binary.littleEndian).Uint32': self.getu(4, False), '(encoding/binary.littleEndian).Uint64': self.getu(8, False),
            'reflect.ValueOf': self.rvalueof, '(reflect.Value).Elem': self.relem, '(reflect.Value).FieldByName': self.rfield,
            '(reflect.Value).Uint': self.ruint, '(reflect.Value).Int': self.rint, '(reflect.Value).Len': self.rlen,
            '(reflect.Value).Bytes': self.rbytes, '(reflect.Value).String': self.rstring, '(reflect.Value).Index': self.rindex,
            'time.Now': self.now, 'time.Unix': self.tunix, 'time.Parse': self.tparse, 'time.Sleep': self.nop,
            '(time.Time).Unix': lambda st, a, i: a[0].f[0], '(time.Time).Nanosecond': lambda st, a, i: a[0].f[1],
            '(time.Time).UTC': lambda st, a, i: a[0], '(time.Time).Local': lambda st, a, i: a[0],
            '(time.Time).UnixNano': self.unixnano, '(time.Time).Format': self.tformat,
            'sort.Slice': self.sortslice, 'sort.Sort': self.sortsort,
            '(*sync.Mutex).Lock': self.lock, '(*sync.Mutex).Unlock': self.unlock,
            '(*net.UDPAddr).String': self.addrstr, '(*net.UDPAddr).Network': lambda st, a, i: self.S.const('udp'),
            '(net.IP).String': self.uf1('ipstr', None), '(net.IP).Equal': self.ipequal,
            '(*net.UDPConn).WriteTo': self.writeto, '(*net.conn).Write': self.connwrite,
            '(*net.UDPConn).ReadFromUDP': self.readfrom, '(*net.conn).Close': self.errres,
            '(*net.conn).RemoteAddr': self.connaddr('remote'), '(*net.conn).LocalAddr': self.connaddr('local'),
            'net.DialUDP': self.dial, 'net.ResolveUDPAddr': self.resolve, 'net.ParseIP': self.uf1('parseip', None),
            'os.Getpid': self.getpid, 'os.Getwd': self.getwd, 'os.Getenv': self.uf1('getenv', None),
            'os.Hostname': self.strerr('hostname'), 'os.Chdir': self.chdir, 'os.Mkdir': self.mkdir,
            'os.Stat': self.stat, 'os.Lstat': self.lstat, 'os.Readlink': self.readlink,
            'os.Create': self.create, 'os.Open': self.open, 'os.OpenFile': self.openfile, 'os.Remove': self.remove,
            '(*os.File).Seek': self.seek, '(*os.File).Read': self.fread, '(*os.File).Write': self.fwrite,
            '(*os.File).ReadAt': self.freadat, '(*os.File).WriteAt': self.fwriteat,
            '(*os.File).Close': self.errres, '(*os.File).Name': self.fname,
            'syscall.Statfs': self.statfs, 'io.Copy': self.iocopy,
            'crypto/md5.New': self.hashnew('md5', 16), 'crypto/sha1.New': self.hashnew('sha1', 20),
            'hash/crc32.New': self.hashnew('crc32', 4), 'hash/crc32.NewIEEE': self.hashnew('crc32', 4),
            'hash/crc32.MakeTable': self.crctable,
            '(io/fs.FileMode).IsDir': lambda st, a, i: Not(eq(a[0] & bv(1 << 31, 32), bv(0, 32))),
            '(io/fs.FileMode).IsRegular': lambda st, a, i: eq(simp(a[0] & bv(0x8f280000, 32)), bv(0, 32)),
        }
        self.PURE = {'errors.New', 'fmt.Errorf', 'fmt.Sprintf', 'fmt.Sprint', 'strings.Split', 'strings.Replace', 'strings.ReplaceAll',
                     'strings.TrimRight', 'strings.TrimSpace', 'strings.Contains', 'strings.Count', 'strings.SplitN', 'strings.Fields',
                     'strings.HasPrefix', 'strconv.Itoa', 'strconv.Atoi', 'path.Clean', '(encoding/binary.bigEndian).Uint16',
                     '(encoding/binary.bigEndian).Uint32', '(encoding/binary.bigEndian).Uint64', '(time.Time).Unix',
                     '(time.Time).Nanosecond', '(time.Time).UTC', 'time.Parse', 'time.Unix', '(net.IP).String', '(net.IP).Equal', '(*net.UDPAddr).String',
                     '(time.Time).Format', 'strings.TrimSuffix', 'strings.IndexByte', 'bytes.IndexByte', 'strings.ToLower',
                     '(io/fs.FileMode).IsDir', '(io/fs.FileMode).IsRegular', 'log.Fatal', 'log.Fatalln', 'log.Fatalf', 'bytes.Equal'}
        m = eng.mod
        self.quietfns = {m + '/sarwin.' + n for n in (
            'MsgPrintf', 'MsgPrintln', 'CmdPrintf', 'CmdPrintln', 'ErrPrintf', 'ErrPrintln', 'PacketPrintf', 'PacketPrintln')}

    # ------------------------------------------------------------ interface
    def lookup(self, name):
        h = self.table.get(name)
        if h is not None:
            self.used.add(name)
            return h
        if name in self.quietfns or name.startswith(('(*github.com/jroimartin/gocui.', 'github.com/jroimartin/gocui.')):
            self.e.assumptions.add(MSG)
            return self.uicall
        return None

    def ispure(self, name):
        return name in self.PURE or name.startswith(self.e.zz) and name[len(self.e.zz):] in (
            'Implies', 'Forall', 'Exists', 'ForallKey', 'ExistsKey', 'FileExists', 'FileVersion', 'Unlocked', 'Inside', 'SameFile', 'Paths', 'FpSize', 'FpByte', 'Digest', 'Fold32', 'Fold64', 'FoldInt',
            'SentCount', 'SentByte', 'SentLen', 'Shares', 'SameMap', 'Fold16', 'FoldBool')

    def resultof(self, st, i, what):
        t = i.get('t')
        if t is None or self.T.kind(t) == 'tuple' and not self.T.under(t)['es']:
            return None
        return self.e.sym(st, t, what)

    def ipequal(self, st, a, i):
        # equal representations are equal addresses; others may be (IPv4 in IPv6 form)
        f = z3.Function('ipequal', a[0].sort(), a[1].sort(), z3.BoolSort())
        return Or(eq(a[0], a[1]), f(a[0], a[1]))

    def uicall(self, st, a, i):
        return self.resultof(st, i, 'ui')

    def unknown(self, st, name, args, i):
        why = 'unmodelled call: ' + name
        st.tainted(why)
        for v in args:
            self.clobber(st, v)
        return self.resultof(st, i, 'ext')

    def clobber(self, st, v):
        """an unknown function may write through its arguments"""
        if isinstance(v, IfaceV) and v.dyn is not None:
            v = v.dyn[1]
        try:
            if isinstance(v, (PtrV, SliceV, MapV)) and v.obj is not None:
                self.e.havocval(st, v)
        except Unsupported:
            pass

    def err(self, st, name='err'):
        return IfaceV(self.e.fbool(name + '.nil'), None, self.e.fbv(name))

    # ------------------------------------------------------------ errors, output, exit
    def errnew(self, st, a, i):
        return IfaceV(FALSE, None, self.e.fbv('err'))

    def freshstr(self, st, a, i):
        # whatever depends on this value is not decided by a counterexample
        return self.e.fbv('weakstr')

    def texts(self, st, sl, ints=None):
        """the elements of a slice of strings, or of interfaces holding strings; None if they are not known"""
        if not isval(sl.len) or cval(sl.len) > 16:
            return None
        r = []
        for k in range(cval(sl.len)):
            v = self.e.content(st, sl.obj).read(st, add(sl.off, bv(k)))
            if isinstance(v, IfaceV):
                if v.dyn is None:
                    return None
                t = self.T.s(v.dyn[0])
                if t in ('int', 'int64', 'uint8', 'uint16', 'uint32') and ints is not None and ints[k]:
                    n = v.dyn[1]
                    v = self.itoa(st, [n if n.size() == 64 else simp(z3.ZeroExt(64 - n.size(), n))], None)
                elif t == 'string' and not (ints and ints[k] == 'd'):
                    v = v.dyn[1]
                else:
                    return None
            if not z3.is_expr(v):
                return None
            r.append(v)
        return r

    def catall(self, xs):
        r = self.S.const(b'')
        for x in xs:
            r = self.S.concat(r, x)
        return r

    def sprintf(self, st, a, i):
        f = self.S.text(a[0])
        if f is None:
            return self.freshstr(st, a, i)
        parts = re.findall(rb'%[svd]|%%|[^%]+|%', f)
        verbs = [{b'%s': '', b'%v': 'v', b'%d': 'd'}[p] for p in parts if p in (b'%s', b'%v', b'%d')]
        if not isval(a[1].len) or cval(a[1].len) != len(verbs) or b'%' in parts:
            return self.freshstr(st, a, i)
        xs = self.texts(st, a[1], verbs) if a[1].obj is not None else []
        if xs is None:
            return self.freshstr(st, a, i)
        it = iter(xs)
        return self.catall([next(it) if p in (b'%s', b'%v', b'%d') else self.S.const(b'%' if p == b'%%' else p) for p in parts])

    def sprint(self, st, a, i):
        xs = self.texts(st, a[0]) if a[0].obj is not None else []
        return self.freshstr(st, a, i) if xs is None else self.catall(xs)

    def join(self, st, a, i):
        xs = self.texts(st, a[0]) if a[0].obj is not None else []
        if xs is None:
            return self.freshstr(st, a, i)
        return self.catall([y for n, x in enumerate(xs) for y in ([a[1]] if n else []) + [x]])

    def printres(self, st, a, i):
        return TupleV([self.e.fbv('n'), self.err(st)])

    def nop(self, st, a, i):
        return None

    def errres(self, st, a, i):
        return self.err(st)

    def exit(self, st, a, i):
        self.e.oblige(st, 'exit', FALSE, 'process exit', i.get('pos', ''))
        from engine import Stop
        raise Stop()

    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, args, i):
        E = self.e
        if name == 'len':
            return self.length(st, args[0])
        if name == 'cap':
            return args[0].cap
        if name == 'append':
            return self.append(st, args, i)
        if name == 'copy':
            return self.copy(st, args)
        if name == 'close':
            st.tainted('close of channels is not modelled')
            return None
        if name == 'ssa:wrapnilchk':
            return args[0]
        if name == 'delete':
            m = args[0]
            if m.obj is None:
                return None
            k = E.mapkey(args[1])
            c = E.content(st, m.obj)
            st.heap[m.obj] = MapDel(c, k, None)
            return None
        if name in ('min', 'max'):
            a, b = args
            w, sg = self.T.intinfo(i['t'])
            c = slt(a, b) if sg else ult(a, b)
            return Ite(c, a, b) if name == 'min' else Ite(c, b, a)
        if name in ('print', 'println'):
            return None
        raise Unsupported('builtin ' + name)

    def length(self, st, v):
        if z3.is_expr(v):
            return self.S.length(v)
        if isinstance(v, SliceV):
            return v.len
        if isinstance(v, ArrV):
            return bv(v.n)
        if isinstance(v, MapV):
            if v.obj is None:
                return bv(0)
            m = self.e.content(st, v.obj)
            if m.const is not None and all(isval(k) for k, _ in m.items):
                return bv(len(m.items))
            if isinstance(m, MapBase):
                st.assume(And(sle(bv(0), m.ln), slt(m.ln, bv(1 << 40))))
                return m.ln
            n = self.e.flen('maplen')
            return n
        raise Unsupported('len')

    def append(self, st, args, i):
        E = self.e
        s, x = args
        et = self.T.elem(i['t'])
        if z3.is_expr(x):          # append([]byte, string...)
            ln = self.S.length(x)
            src, soff = MFun(lambda ctx, idx, x=x: self.S.byte(ctx, x, idx)), bv(0)
        else:
            ln = x.len
            if x.obj is None:
                return s if s.obj is not None or not is_true(s.nil) else s
            src, soff = E.content(st, x.obj), x.off
        if isval(ln) and cval(ln) == 0:
            return s
        if s.sub and s.obj is not None:
            c = simp(sle(add(s.len, ln), s.cap))
            if st.decide(c):
                E.checkown(st, s)
                old = E.content(st, s.obj)
                st.heap[s.obj] = self.mcopy(st, old, add(s.off, s.len), ln, src, soff)
                return SliceV(s.obj, s.off, add(s.len, ln), s.cap, FALSE, True)
        E.assumptions.add('append to a full slice, or to one that was not cut from a larger one, yields storage of its own')
        if s.obj is None or (isval(s.len) and cval(s.len) == 0):
            base, n = MZero(et), bv(0)
        else:
            m = E.content(st, s.obj)
            n = s.len
            if isval(s.off) and cval(s.off) == 0:
                base = m
            else:
                base = MFun(lambda ctx, idx, m=m, off=s.off: m.read(ctx, add(off, idx)))
        mem = self.mcopy(st, base, n, ln, src, soff)
        o = E.newobj(st, 'arr', et, mem)
        nl = add(n, ln)
        nonnil = FALSE
        if not (isval(ln)):
            nonnil = And(s.nil, eq(ln, bv(0)))
        return SliceV(o, bv(0), nl, nl, nonnil)

    def mcopy(self, st, prev, doff, n, src, soff):
        if isval(n) and cval(n) <= 32:
            vals = [src.read(st, add(soff, bv(j))) for j in range(cval(n))]
            for j, v in enumerate(vals):
                prev = MStore(prev, add(doff, bv(j)), v)
            return prev
        return MCopy(prev, doff, n, src, soff)

    def copy(self, st, args):
        E = self.e
        d, s = args
        if z3.is_expr(s):
            ln = self.S.length(s)
            src, soff = MFun(lambda ctx, idx: self.S.byte(ctx, s, idx)), bv(0)
        else:
            ln = s.len
            if s.obj is None:
                return bv(0)
            src, soff = E.content(st, s.obj), s.off
        if d.obj is None:
            return bv(0)
        dl = d.len
        if ln.eq(dl):
            n = ln
        else:
            c = simp(sle(ln, dl))
            n = Ite(c, ln, dl)
        if isval(n) and cval(n) == 0:
            return n
        E.checkown(st, d)
        old = E.content(st, d.obj)
        st.heap[d.obj] = self.mcopy(st, old, d.off, n, src, soff)
        return n

    # ------------------------------------------------------------ strings
    def opaque_strings(self, st, n, get):
        """[]string of length n with elements get(idx)"""
        E = self.e
        o = E.newobj(st, 'arr', self.T.STR, MFun(lambda ctx, idx: get(idx)))
        return SliceV(o, bv(0), n, n)

    def conststrings(self, st, xs):
        m = MZero(self.T.STR)
        for j, x in enumerate(xs):
            m = MStore(m, bv(j), self.S.const(x))
        o = self.e.newobj(st, 'arr', self.T.STR, m)
        return SliceV(o, bv(0), bv(len(xs)), bv(len(xs)))

    def split(self, st, a, i):
        s, sep = a
        ts, tp = self.S.text(s), self.S.text(sep)
        if ts is not None and tp:
            return self.conststrings(st, ts.split(tp))
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            return self.split(st, [s.arg(1) if st.decide(s.arg(0)) else s.arg(2), sep], i)
        S = self.S
        n = zext(S.nparts(s, sep))
        st.assume(sle(bv(1), n))
        # the pieces of a string with one piece are the string itself
        st.assume(Implies(eq(n, bv(1)), eq(S.part(s, sep, bv(0)), s)))
        return self.opaque_strings(st, n, lambda idx: S.part(s, sep, idx))

    def splitn(self, st, a, i):
        s, sep, n = a
        ts, tp = self.S.text(s), self.S.text(sep)
        if ts is not None and tp and isval(n) and s64(n) > 0:
            return self.conststrings(st, ts.split(tp, cval(n) - 1))
        f = z3.Function('splitn', BV64, BV64, BV64, BV40)
        p = z3.Function('splitnpart', BV64, BV64, BV64, BV64, BV64)
        ln = zext(f(s, sep, n))
        st.assume(And(sle(bv(1), ln), Implies(slt(bv(0), n), sle(ln, n))))
        return self.opaque_strings(st, ln, lambda idx: p(s, sep, n, idx))

    def fields(self, st, a, i):
        s = a[0]
        ts = self.S.text(s)
        if ts is not None:
            return self.conststrings(st, ts.split())
        f = z3.Function('nfields', BV64, BV40)
        p = z3.Function('fieldpart', BV64, BV64, BV64)
        ln = zext(f(s))
        return self.opaque_strings(st, ln, lambda idx: p(s, idx))

    def replace(self, st, a, i):
        s, old, new = a[:3]
        ts, to, tn = self.S.text(s), self.S.text(old), self.S.text(new)
        if ts is not None and to and tn is not None and (len(a) < 4 or (isval(a[3]) and s64(a[3]) < 0)):
            return self.S.const(ts.replace(to, tn))
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            return Ite(s.arg(0), self.replace(st, [s.arg(1)] + a[1:], i), self.replace(st, [s.arg(2)] + a[1:], i))
        f = z3.Function('sreplace', BV64, BV64, BV64, BV64)
        return f(s, old, new)

    def trimright(self, st, a, i):
        s, cut = a
        S = self.S
        ts, tc = S.text(s), S.text(cut)
        if tc is None:
            return self.e.fbv('trim')
        if ts is not None:
            return S.const(ts.rstrip(tc))
        ln = S.length(s)

        def incut(b):
            return Or(*[eq(b, bv(c, 8)) for c in tc])
        if isval(ln) and cval(ln) <= 32:
            n = bv(0)
            for j in range(cval(ln)):
                n = Ite(incut(S.byte(st, s, bv(j))), n, bv(j + 1))
            return self.e.substr(s, bv(0), n)
        memo = self.e.__dict__.setdefault('trims', {})
        r = memo.get((s.get_id(), tc))
        if r is None:
            n = z3.Function('trimright_' + tc.hex(), BV64, BV64)(s)
            snap = self.e.snap(st)
            r = memo[(s.get_id(), tc)] = (s, self.e.substr(s, bv(0), n), [
                And(sle(bv(0), n), sle(n, ln), Or(eq(n, bv(0)), Not(incut(S.byte(st, s, sub(n, bv(1))))))),
                self.e.P.forall(n, ln, lambda t: incut(S.byte(snap, s, t)), name='trim')])
        for c in r[2]:
            st.assume(c)
        return r[1]

    def uf1(self, name, conc):
        f = z3.Function(name, BV64, BV64)

        def h(st, a, i):
            t = self.S.text(a[0])
            if t is not None and conc is not None:
                return self.S.const(conc(t))
            return f(a[0])
        return h

    def contains(self, st, a, i):
        ts, tp = self.S.text(a[0]), self.S.text(a[1])
        if ts is not None and tp is not None:
            return TRUE if tp in ts else FALSE
        if tp is not None and len(tp) == 1:
            return Not(eq(self.indexbyte(st, [a[0], bv(tp[0], 8)], i), bv((1 << 64) - 1)))
        return z3.Function('scontains', BV64, BV64, z3.BoolSort())(a[0], a[1])

    def hasprefix(self, st, a, i):
        s, p = a
        ts, tp = self.S.text(s), self.S.text(p)
        if ts is not None and tp is not None:
            return TRUE if ts.startswith(tp) else FALSE
        if tp is not None:
            return And(sle(bv(len(tp)), self.S.length(s)), *[eq(self.S.byte(st, s, bv(j)), bv(c, 8)) for j, c in enumerate(tp)])
        inf = self.S.info.get(s.get_id())
        if inf and inf[1] == 'cat' and inf[2].eq(p):
            return TRUE
        return z3.Function('hasprefix', BV64, BV64, z3.BoolSort())(s, p)

    def trimsuffix(self, st, a, i):
        ts, tp = self.S.text(a[0]), self.S.text(a[1])
        if ts is not None and tp is not None:
            return self.S.const(ts[:-len(tp)] if tp and ts.endswith(tp) else ts)
        return z3.Function('trimsuffix', BV64, BV64, BV64)(a[0], a[1])

    def findbyte(self, st, ln, rd, c):
        n = self.e.fbv('index')
        snap = self.e.snap(st)
        st.assume(And(sle(bv(-1), n), slt(n, ln), Or(eq(n, bv(-1)), eq(rd(st, n), c))))
        st.assume(self.e.P.forall(bv(0), Ite(eq(n, bv(-1)), ln, n), lambda t: Not(eq(rd(snap, t), c)), name='idx'))
        st.seeds = st.seeds + (n,)
        return n

    def indexbyte(self, st, a, i):
        return self.findbyte(st, self.S.length(a[0]), lambda ctx, t: self.S.byte(ctx, a[0], t), a[1])

    def index(self, st, a, i):
        tp = self.S.text(a[1])
        if tp is not None and len(tp) == 1:
            return self.indexbyte(st, [a[0], bv(tp[0], 8)], i)
        v = self.e.fbv('idx')
        st.assume(And(sle(bv((1 << 64) - 1), v), slt(v, self.S.length(a[0]))))
        return v

    def indexrune(self, st, a, i):
        if isval(a[1]) and 0 <= cval(a[1]) < 128:
            return self.indexbyte(st, [a[0], bv(cval(a[1]), 8)], i)
        v = self.e.fbv('idx')
        st.assume(And(sle(bv((1 << 64) - 1), v), slt(v, self.S.length(a[0]))))
        return v

    def containsrune(self, st, a, i):
        return Not(eq(self.indexrune(st, a, i), bv((1 << 64) - 1)))

    def bindexbyte(self, st, a, i):
        s = a[0]
        if s.obj is None:
            return bv(-1)
        m = self.e.content(st, s.obj)
        return self.findbyte(st, s.len, lambda ctx, t: m.read(ctx, add(s.off, t)), a[1])

    def bytesequal(self, st, a, i):
        x, y = a
        mx = self.e.content(st, x.obj) if x.obj is not None else MZero(self.T.U8)
        my = self.e.content(st, y.obj) if y.obj is not None else MZero(self.T.U8)
        snap = self.e.snap(st)
        q = self.e.P.forall(bv(0), x.len, lambda t: eq(mx.read(snap, add(x.off, t)), my.read(snap, add(y.off, t))), name='beq', st=snap)
        return And(eq(x.len, y.len), q)

    def count(self, st, a, i):
        ts, tp = self.S.text(a[0]), self.S.text(a[1])
        if ts is not None and tp:
            return bv(ts.count(tp))
        return zext(z3.Function('scount', BV64, BV64, BV40)(a[0], a[1]))

    def itoa(self, st, a, i):
        if isval(a[0]):
            return self.S.const(str(s64(a[0])))
        return z3.Function('itoa', BV64, BV64)(a[0])

    def atoi(self, st, a, i):
        t = self.S.text(a[0])
        if t is not None and re.fullmatch(rb'[+-]?[0-9]{1,18}', t):
            return TupleV([bv(int(t)), self.e.zero(st, self.errtype())])
        nil = z3.Function('atoiok', BV64, z3.BoolSort())(a[0])
        v = z3.Function('atoi', BV64, BV64)(a[0])
        return TupleV([v, IfaceV(nil, None, self.e.fbv('err'))])

    def parseuint(self, st, a, i):
        if not isval(a[1]) or not isval(a[2]):
            raise Unsupported('strconv.ParseUint with a base or size that is no constant')
        base, bits = cval(a[1]), cval(a[2]) or 64
        v = z3.Function('parseuint%d' % base, BV64, BV64)(a[0])
        nil = z3.Function('parseuint%dok' % base, BV64, z3.BoolSort())(a[0])
        if bits < 64:     # out of range: the largest value and an error
            big = z3.UGE(v, bv(1 << bits))
            return TupleV([Ite(And(nil, big), bv((1 << bits) - 1), v), IfaceV(And(nil, Not(big)), None, self.e.fbv('err'))])
        return TupleV([v, IfaceV(nil, None, self.e.fbv('err'))])

    def errtype(self):
        return self.T.bystr['error']

    def pathclean(self, st, a, i):
        t = self.S.text(a[0])
        if t is not None:
            import posixpath
            r = posixpath.normpath(t.decode('latin1')) if t else '.'
            if r.startswith('//'):
                r = r[1:]
            return self.S.const(r.encode('latin1'))
        if self.clean(a[0]) is not None:
            return a[0]
        r = z3.Function('pathclean', BV64, BV64)(a[0])
        i = self.S.info.get(a[0].get_id())
        if i and i[1] == 'cat':
            self.S.note(r, 'clean', a[0])
        return r

    def clean(self, e):
        """x if e is path.Clean("/" + x)"""
        i = self.S.info.get(e.get_id())
        if i and i[1] == 'clean':
            j = self.S.info.get(i[2].get_id())
            if j and j[1] == 'cat' and (self.S.text(j[2]) or b'').startswith(b'/'):
                return i[2]
        return None

    def pathjoin(self, st, a, i):
        sl = a[0]
        if sl.obj is None or not isval(sl.len):
            return self.freshstr(st, a, i)
        m = self.e.content(st, sl.obj)
        xs = [m.read(st, bv(k)) for k in range(cval(sl.len))]
        ts = [self.S.text(x) for x in xs]
        if len(xs) == 2 and ts[1] is None:
            if ts[0] == b'/':
                # path.Join("/", x) is path.Clean("/" + x)
                return self.pathclean(st, [self.S.concat(xs[0], xs[1])], i)
            r = z3.Function('pathjoin', BV64, BV64, BV64)(xs[0], xs[1])
            self.S.note(r, 'join', xs[0], xs[1])
            return r
        return self.freshstr(st, a, i)

    def fskey(self, st, p):
        """the file a path names: paths that differ only in how they are written have the same key"""
        i = self.S.info.get(p.get_id())
        if i and i[1] in ('cat', 'join') and self.clean(i[3]) is not None:
            k = z3.Function('fskey2', BV64, BV64, BV64)(i[2], i[3])
            self.e.assumptions.add('path.Clean of a rooted path never has a .. element, so the Saratoga directory followed by it is inside the Saratoga directory')
            st.assume(z3.Function('fsinside', BV64, BV64, z3.BoolSort())(i[2], k))
            return k
        if z3.is_app_of(p, z3.Z3_OP_ITE):
            return Ite(p.arg(0), self.fskey(st, p.arg(1)), self.fskey(st, p.arg(2)))
        return z3.Function('fskey', BV64, BV64)(p)

    def inside(self, st, d, p):
        return z3.Function('fsinside', BV64, BV64, z3.BoolSort())(d, self.fskey(st, p))

    def ospath(self, st, p):
        """a path handed to the operating system"""
        if st.mode == 'use':
            return
        k = ('ghost', 'ospaths')
        st.heap[k] = st.heap.get(k, ()) + (p,)

    # ------------------------------------------------------------ binary
    def put(self, n, big):
        def h(st, a, i):
            E = self.e
            b, v = a[-2], a[-1]
            c = simp(sle(bv(n), b.len))
            E.oblige(st, 'index', c, 'index in range', i.get('pos', ''))
            if is_false(c):
                from engine import Stop
                raise Stop()
            if b.obj is None:
                return None
            E.checkown(st, b)
            m = E.content(st, b.obj)
            for j in range(n):
                sh = (n - 1 - j) if big else j
                m = MStore(m, add(b.off, bv(j)), simp(z3.Extract(8 * sh + 7, 8 * sh, v)))
            st.heap[b.obj] = m
            return None
        return h

    def appendu(self, n):
        def h(st, a, i):
            E = self.e
            m = MZero(self.T.U8)
            for j in range(n):
                sh = 8 * (n - 1 - j)
                m = MStore(m, bv(j), simp(z3.Extract(sh + 7, sh, a[-1])))
            o = E.newobj(st, 'arr', self.T.U8, m)
            return self.append(st, [a[-2], SliceV(o, bv(0), bv(n), bv(n), FALSE)], i)
        return h

    def getu(self, n, big):
        def h(st, a, i):
            E = self.e
            b = a[-1]
            c = simp(sle(bv(n), b.len))
            E.oblige(st, 'index', c, 'index in range', i.get('pos', ''))
            if is_false(c) or b.obj is None:
                from engine import Stop
                raise Stop()
            m = E.content(st, b.obj)
            bs = [m.read(st, add(b.off, bv(j))) for j in range(n)]
            if not big:
                bs.reverse()
            return simp(z3.Concat(*bs))
        return h

    # ------------------------------------------------------------ reflect
    def rvalueof(self, st, a, i):
        v = a[0]
        if isinstance(v, IfaceV):
            if v.dyn is None:
                raise Unsupported('reflection on an unknown value')
            return RefV(v.dyn[0], v.dyn[1])
        raise Unsupported('reflect.ValueOf')

    def rpanic(self, st, i, what):
        self.e.oblige(st, 'panic', FALSE, 'reflect: ' + what, i.get('pos', ''))
        from engine import Stop
        raise Stop()

    def relem(self, st, a, i):
        r = a[0]
        if r.t is not None and self.T.kind(r.t) == 'ptr':
            self.e.nonnil(st, r.v, i.get('pos', ''))
            return RefV(self.T.elem(r.t), self.e.load(st, r.v), r.v)
        self.rpanic(st, i, 'Elem')

    def rfield(self, st, a, i):
        r, n = a
        n = self.S.text(n)
        if r.t is None or self.T.kind(r.t) != 'struct' or n is None:
            self.rpanic(st, i, 'FieldByName')
        k = self.T.fieldidx(r.t, n.decode())
        if k is None:
            return RefV(None, None)
        return RefV(self.T.fields(r.t)[k]['t'], r.v.f[k])

    def ruint(self, st, a, i):
        r = a[0]
        if r.t is None or self.T.kind(r.t) != 'int' or self.T.intinfo(r.t)[1]:
            self.rpanic(st, i, 'Uint')
        w = self.T.intinfo(r.t)[0]
        return simp(z3.ZeroExt(64 - w, r.v)) if w < 64 else r.v

    def rint(self, st, a, i):
        r = a[0]
        if r.t is None or self.T.kind(r.t) != 'int' or not self.T.intinfo(r.t)[1]:
            self.rpanic(st, i, 'Int')
        w = self.T.intinfo(r.t)[0]
        return simp(z3.SignExt(64 - w, r.v)) if w < 64 else r.v

    def rlen(self, st, a, i):
        r = a[0]
        if r.t is None or self.T.kind(r.t) not in ('slice', 'string', 'array', 'map'):
            self.rpanic(st, i, 'Len')
        return self.length(st, r.v)

    def rbytes(self, st, a, i):
        r = a[0]
        if r.t is None or self.T.kind(r.t) != 'slice':
            self.rpanic(st, i, 'Bytes')
        return r.v

    def rstring(self, st, a, i):
        r = a[0]
        if r.t is None:
            return self.S.const('<invalid Value>')
        if self.T.kind(r.t) != 'string':
            return self.S.const('<%s Value>' % self.T.s(r.t).rsplit('/', 1)[-1])
        return r.v

    def rindex(self, st, a, i):
        r, n = a
        if r.t is None or not isinstance(r.v, SliceV):
            self.rpanic(st, i, 'Index')
        self.e.inrange(st, n, r.v.len, i.get('pos', ''))
        return RefV(self.T.elem(r.t), self.e.load(st, PtrV(r.v.obj, (('i', add(r.v.off, n)),))))

    # ------------------------------------------------------------ time
    def now(self, st, a, i):
        E = self.e
        s, n = E.fbv('now'), E.fbv('nowns')
        st.assume(And(sle(bv(946684800), s), slt(s, bv(1 << 32)), sle(bv(0), n), slt(n, bv(10 ** 9))))
        E.assumptions.add('the system clock reads between 2000 and 2106')
        return StructV([s, n])

    def tunix(self, st, a, i):
        s, n = a
        if isval(n) and 0 <= s64(n) < 10 ** 9:
            return StructV([s, n])
        G = bv(10 ** 9)
        q = n / G
        r = z3.SRem(n, G)
        neg = r < bv(0)
        return StructV([norm(s + q + Ite(neg, bv(-1), bv(0))), Ite(neg, r + G, r)])

    def unixnano(self, st, a, i):
        return norm(a[0].f[0] * bv(10 ** 9) + a[0].f[1])

    def tparse(self, st, a, i):
        lay, v = self.S.text(a[0]), self.S.text(a[1])
        if lay == b'2006-01-02T15:04:05Z07:00' and v is not None:
            try:
                d = datetime.datetime.strptime(v.decode(), '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=datetime.timezone.utc)
                return TupleV([StructV([bv(int(d.timestamp())), bv(0)]), self.e.zero(st, self.errtype())])
            except ValueError:
                pass
        return TupleV([StructV([self.e.fbv('ptime'), bv(0)]), self.err(st)])

    def tformat(self, st, a, i):
        return z3.Function('tformat', BV64, BV64, BV64, BV64)(a[0].f[0], a[0].f[1], a[1])

    # ------------------------------------------------------------ sort
    def sortslice(self, st, a, i):
        E = self.e
        sl = a[0]
        if isinstance(sl, IfaceV):
            sl = sl.dyn[1]
        less = a[1]
        if sl.obj is None:
            return None
        E.checkown(st, sl)
        et = E.otype[sl.obj][1]
        A = E.content(st, sl.obj)
        E.P.n += 1
        n = E.P.n
        B0 = MBase(et, 'sorted!%d' % n)
        B = MCopy(A, sl.off, sl.len, MFun(lambda ctx, idx: B0.read(ctx, idx)), bv(0))
        p = z3.Function('perm!%d' % n, BV64, BV64)
        pi = z3.Function('perminv!%d' % n, BV64, BV64)
        st.heap[sl.obj] = B
        snap = E.snap(st)
        L = sl.len
        inr = lambda x: And(sle(bv(0), x), slt(x, L))
        st.assume(E.P.forall(bv(0), L, lambda t: And(inr(p(t)), eq(pi(p(t)), t), E.deepeq(
            snap, B0.read(snap, t), A.read(snap, add(sl.off, p(t))), et)), name='perm'))
        st.assume(E.P.forall(bv(0), L, lambda t: And(inr(pi(t)), eq(p(pi(t)), t), E.deepeq(
            snap, B0.read(snap, pi(t)), A.read(snap, add(sl.off, t)), et)), name='perminv'))
        # ordered: no element is less than one before it (for a strict weak order `less`)
        st.assume(E.P.forall(bv(1), L, lambda t: Not(E.body(snap, less, [t, sub(t, bv(1))])), name='sorted'))
        E.assumptions.add('sort.Slice permutes its slice into the order of its less function, a strict weak order')
        return None

    def sortsort(self, st, a, i):
        v = a[0]
        if isinstance(v, IfaceV) and v.dyn is not None and isinstance(v.dyn[1], SliceV):
            self.clobber(st, v.dyn[1])
        return None

    # ------------------------------------------------------------ locks
    def lock(self, st, a, i):
        m = a[0]
        if isinstance(m, OPtr):
            return None
        v = self.e.load(st, m)
        self.e.oblige(st, 'lock', Not(v.f[0]), 'mutex is not already held (self-deadlock)', i.get('pos', ''))
        self.e.store(st, m, StructV([TRUE]))

    def unlock(self, st, a, i):
        m = a[0]
        if isinstance(m, OPtr):
            return None
        v = self.e.load(st, m)
        self.e.oblige(st, 'lock', v.f[0], 'mutex is held when unlocked', i.get('pos', ''))
        self.e.store(st, m, StructV([FALSE]))

    # ------------------------------------------------------------ network
    def addrstr(self, st, a, i):
        p = a[0]
        if isinstance(p, OPtr):
            return Ite(eq(p.id, bv(0)), self.S.const('<nil>'), z3.Function('addrstr', BV64, BV64, BV64, BV64)(*self.e.opaddr(p).f))
        if p.obj is None:
            return self.S.const('<nil>')
        v = self.e.load(st, p)
        f = z3.Function('addrstr', BV64, BV64, BV64, BV64)
        ip, port, zone = v.f
        r = f(ip, port, zone)
        return Ite(p.nil, self.S.const('<nil>'), r)

    def log(self, st, ev):
        if self.e.persend(st, *ev):
            return
        k = ('ghost', 'sent')
        st.heap[k] = st.heap.get(k, ()) + (ev,)

    def writeto(self, st, a, i):
        conn, b, to = a
        self.e.nonnil(st, conn, i.get('pos', ''))
        mem = self.e.content(st, b.obj) if b.obj is not None else MZero(self.T.U8)
        self.log(st, (conn, mem, b.off, b.len, to))
        return self.wrote(st, b)

    def wrote(self, st, b):
        # a datagram is sent whole or not at all
        n, e = self.e.fbv('n'), self.err(st)
        st.assume(Implies(e.nil, eq(n, b.len)))
        self.e.fault(st, e)
        return TupleV([n, e])

    def connwrite(self, st, a, i):
        conn, b = a
        mem = self.e.content(st, b.obj) if b.obj is not None else MZero(self.T.U8)
        self.log(st, (conn, mem, b.off, b.len, None))
        return self.wrote(st, b)

    def readfrom(self, st, a, i):
        E = self.e
        conn, b = a
        n = E.fbv('rxlen')
        st.assume(And(sle(bv(0), n), sle(n, b.len)))
        E.havocval(st, b)
        t = self.T.under(i['t'])['es'][1]
        ad = E.sym(st, t, 'from')
        e = self.err(st)
        if st.heap.get(('ghost', 'dgclauses')):
            E.endseg(st)
            o = E.newobj(st, 'arr', self.T.U8, E.content(st, b.obj))
            d = SliceV(o, b.off, n, n, FALSE)
            k = st.heap[('ghost', 'seg')][0]
            st.heap[('ghost', 'seg')] = (k + 1, (e.nil, d, ad), ())
        return TupleV([n, ad, e])

    def connaddr(self, which):
        f = z3.Function('connaddr_' + which, BV64, BV64)

        def h(st, a, i):
            c = a[0]
            if isinstance(c, PtrV) and c.path and c.path[-1] == 0:
                c = PtrV(c.obj, c.path[:-1], c.nil)
            if isinstance(c, OPtr):
                return IfaceV(eq(c.id, bv(0)), None, f(c.id))
            return IfaceV(FALSE, None, self.e.fbv('addr'))
        return h

    def dial(self, st, a, i):
        c = self.e.fbv('conn')
        e = self.err(st)
        st.assume(eq(e.nil, Not(eq(c, bv(0)))))
        # the address the connection leads to
        to = self.addrstr(st, [a[2]], i)
        st.assume(eq(self.remotestr(c), to))
        self.e.fault(st, e)
        return TupleV([OPtr(c), e])

    def remotestr(self, c):
        return z3.Function('m_String', BV64, BV64)(z3.Function('connaddr_remote', BV64, BV64)(c))

    def dest(self, st, d):
        """text of the address a datagram goes to"""
        conn, to = d.f[0], d.f[2]
        if not isinstance(conn, OPtr):
            raise Unsupported('a connection that is not opaque')
        n = eq(to.id, bv(0)) if isinstance(to, OPtr) else TRUE if to.obj is None else to.nil
        return Ite(n, self.remotestr(conn.id), self.addrstr(st, [to], {}))

    def resolve(self, st, a, i):
        """the address is a function of the text"""
        t = self.T.under(i['t'])['es'][0]
        f = lambda n, so: z3.Function('resolve_' + n, BV64, BV64, so)(a[0], a[1])
        e = IfaceV(f('ok', z3.BoolSort()), None, f('err', BV64))
        v = StructV([f('ip', BV64), f('port', BV64), f('zone', BV64)])
        o = self.e.newobj(st, 'cell', self.T.elem(t), v)
        return TupleV([PtrV(o, (), Not(e.nil)), e])

    # ------------------------------------------------------------ operating system
    def getpid(self, st, a, i):
        v = self.e.fbv('pid')
        st.assume(And(sle(bv(1), v), slt(v, bv(1 << 22))))
        return v

    def getwd(self, st, a, i):
        # the working directory is there all the time or not at all
        e = IfaceV(z3.Bool('cwd.err.nil'), None, z3.BitVec('cwd.err', 64))
        return TupleV([z3.BitVec('cwd', 64), e])

    def strerr(self, n):
        def h(st, a, i):
            e = self.err(st)
            self.e.fault(st, e)
            return TupleV([self.e.fbv(n), e])
        return h

    def ghost(self, st, name, sort):
        k = ('ghost', name)
        if k not in st.heap:
            st.heap[k] = z3.Array('fs_' + name, BV64, sort)
        return st.heap[k]

    def exists(self, st, key):
        return z3.Select(self.ghost(st, 'exists', z3.BoolSort()), key)

    def version(self, st, key):
        return z3.Select(self.ghost(st, 'version', BV64), key)

    FSNOTE = 'os.Stat, Lstat, Open, OpenFile, Create, Mkdir and Remove act on a map from path to file; a path that cannot be examined does not name a file'

    def info(self, st, key, follow):
        li = z3.Function('lstatinfo', BV64, BV64, BV64)(key, self.version(st, key))
        if not follow:
            return li
        mode = z3.Function('m_mode', BV64, z3.BitVecSort(32))
        si = z3.Function('statinfo', BV64, BV64, BV64)(key, self.version(st, key))
        return Ite(eq(simp(mode(li) & bv(1 << 27, 32)), bv(0, 32)), li, si)

    def stat(self, st, a, i, follow=True):
        self.e.assumptions.add(self.FSNOTE)
        self.ospath(st, a[0])
        key = self.fskey(st, a[0])
        ok = self.exists(st, key)
        if follow:
            mode = z3.Function('m_mode', BV64, z3.BitVecSort(32))
            li = self.info(st, key, False)
            dangling = And(Not(eq(simp(mode(li) & bv(1 << 27, 32)), bv(0, 32))), z3.Function('dangling', BV64, z3.BoolSort())(li))
            ok = And(ok, Not(dangling))
        return TupleV([IfaceV(Not(ok), None, self.info(st, key, follow)), IfaceV(ok, None, self.e.fbv('err'))])

    def lstat(self, st, a, i):
        return self.stat(st, a, i, False)

    def readlink(self, st, a, i):
        self.ospath(st, a[0])
        e = self.err(st)
        self.e.fault(st, e)
        return TupleV([z3.Function('readlink', BV64, BV64)(a[0]), e])

    def mkfile(self, st, path, ok, mem=None, size=None):
        f = self.e.fbv('file')
        st.assume(eq(ok, Not(eq(f, bv(0)))))
        st.assume(Implies(ok, eq(z3.Function('fpath', BV64, BV64)(f), path)))
        r = OPtr(f)
        self.fpaths[f.get_id()] = path
        self.keepf.append(f)
        if mem is None:
            key = self.fskey(st, path)
            ver = self.version(st, key)
            self.opened[f.get_id()] = (key, ver)
            mem = MFun(lambda ctx, idx: z3.Function('fcontent', BV64, BV64, BV64, BV8)(key, ver, idx))
            size = zext(z3.Function('fcsize', BV64, BV64, BV40)(key, ver))
        st.heap[self.filekey(st, r)] = ('file', mem, size, bv(0))
        return r

    def touch(self, st, key, cond):
        ve = self.ghost(st, 'version', BV64)
        st.heap[('ghost', 'version')] = z3.Store(ve, key, Ite(cond, self.e.fbv('ver'), z3.Select(ve, key)))

    def create(self, st, a, i):
        E = self.e
        E.assumptions.add(self.FSNOTE)
        self.ospath(st, a[0])
        e = self.err(st)
        self.e.fault(st, e)
        p = self.fskey(st, a[0])
        ex = self.ghost(st, 'exists', z3.BoolSort())
        st.heap[('ghost', 'exists')] = z3.Store(ex, p, Or(e.nil, z3.Select(ex, p)))
        self.touch(st, p, e.nil)
        return TupleV([self.mkfile(st, a[0], e.nil, MZero(self.T.U8), bv(0)), e])

    def open(self, st, a, i):
        self.ospath(st, a[0])
        e = self.err(st)
        ex = self.exists(st, self.fskey(st, a[0]))
        st.assume(Implies(e.nil, ex))
        self.e.fault(st, e, Not(ex))
        return TupleV([self.mkfile(st, a[0], e.nil), e])

    def openfile(self, st, a, i):
        E = self.e
        self.ospath(st, a[0])
        e = self.err(st)
        p, flag = self.fskey(st, a[0]), a[1]
        ex = self.ghost(st, 'exists', z3.BoolSort())
        creat = Not(eq(simp(flag & bv(0o100)), bv(0)))
        excl = Not(eq(simp(flag & bv(0o200)), bv(0)))
        trunc = Not(eq(simp(flag & bv(0o1000)), bv(0)))
        was = z3.Select(ex, p)
        st.assume(Implies(And(e.nil, creat, excl), Not(was)))
        st.assume(Implies(And(e.nil, Not(creat)), was))
        E.fault(st, e, Or(And(creat, excl, was), And(Not(creat), Not(was))))
        st.heap[('ghost', 'exists')] = z3.Store(ex, p, Or(was, And(e.nil, creat)))
        empty = And(e.nil, Or(trunc, Not(was)))
        self.touch(st, p, empty)
        if is_false(simp(Or(creat, trunc))):
            return TupleV([self.mkfile(st, a[0], e.nil), e])
        r = self.mkfile(st, a[0], e.nil)
        k = self.filekey(st, r)
        f = st.heap[k]
        st.heap[k] = ('file', f[1], Ite(empty, bv(0), f[2]), f[3])
        return TupleV([r, e])

    def remove(self, st, a, i):
        self.e.assumptions.add(self.FSNOTE)
        self.ospath(st, a[0])
        e = self.err(st)
        p = self.fskey(st, a[0])
        ex = self.ghost(st, 'exists', z3.BoolSort())
        st.assume(Implies(e.nil, z3.Select(ex, p)))
        self.e.fault(st, e, Not(z3.Select(ex, p)))
        st.heap[('ghost', 'exists')] = z3.Store(ex, p, And(z3.Select(ex, p), Not(e.nil)))
        return e

    def mkdir(self, st, a, i):
        self.ospath(st, a[0])
        e = self.err(st)
        p = self.fskey(st, a[0])
        ex = self.ghost(st, 'exists', z3.BoolSort())
        st.assume(Implies(e.nil, Not(z3.Select(ex, p))))
        self.e.fault(st, e, z3.Select(ex, p))
        st.heap[('ghost', 'exists')] = z3.Store(ex, p, Or(e.nil, z3.Select(ex, p)))
        self.touch(st, p, e.nil)
        return e

    def chdir(self, st, a, i):
        self.ospath(st, a[0])
        e = self.err(st)
        self.e.fault(st, e)
        return e

    # files: content is an array of bytes per file identity, position is ghost state
    def filekey(self, st, f):
        return ('ghost', 'file', f.id.get_id())

    def filestate(self, st, f):
        k = self.filekey(st, f)
        if k not in st.heap:
            self.e.P.n += 1
            n = self.e.P.n
            base = MBase(self.T.U8, 'fdata!%d' % n)
            size, pos = self.e.fbv('fsize'), self.e.fbv('fpos')
            st.assume(And(sle(bv(0), size), slt(size, bv(1 << 40)), sle(bv(0), pos), slt(pos, bv(1 << 62))))
            st.heap[k] = ('file', base, size, pos)
        return st.heap[k]

    def seek(self, st, a, i):
        f, off, wh = a
        _, mem, size, pos = self.filestate(st, f)
        base = Ite(eq(wh, bv(0)), bv(0), Ite(eq(wh, bv(1)), pos, size))
        np = norm(add(base, off))
        e = self.err(st)
        st.assume(Implies(slt(np, bv(0)), Not(e.nil)))
        self.e.fault(st, e, slt(np, bv(0)))
        st.heap[self.filekey(st, f)] = ('file', mem, size, Ite(e.nil, np, pos))
        return TupleV([Ite(e.nil, np, bv(0)), e])

    def fwrite(self, st, a, i):
        f, b = a
        _, mem, size, pos = self.filestate(st, f)
        e = self.err(st)
        n = self.e.fbv('nw')
        self.e.fault(st, e)
        st.assume(And(sle(bv(0), n), sle(n, b.len), Implies(e.nil, eq(n, b.len))))
        st.assume(sle(n, sub(bv((1 << 63) - 1), pos)))
        src = self.e.content(st, b.obj) if b.obj is not None else MZero(self.T.U8)
        self.touch(st, self.fskey(st, self.fname(st, [f], i)), TRUE)
        end = add(pos, n)
        # a gap between the end of the file and the position reads as zero
        gap = MCopy(mem, size, Ite(slt(size, pos), sub(pos, size), bv(0)), MZero(self.T.U8), bv(0))
        st.heap[self.filekey(st, f)] = ('file', MCopy(gap, pos, n, src, b.off), Ite(And(slt(size, end), slt(bv(0), n)), end, size), end)
        return TupleV([n, e])

    def fread(self, st, a, i):
        f, b = a
        _, mem, size, pos = self.filestate(st, f)
        e = self.err(st)
        n = self.e.fbv('nr')
        avail = Ite(slt(pos, size), sub(size, pos), bv(0))
        self.e.fault(st, e, eq(avail, bv(0)))
        self.e.assumptions.add('a read of a regular file that does not fail gives as many bytes as asked for or as the file has left')
        st.assume(And(sle(bv(0), n), sle(n, b.len), sle(n, avail), Implies(e.nil, eq(n, Ite(slt(avail, b.len), avail, b.len)))))
        st.assume(Implies(And(slt(bv(0), b.len), eq(avail, bv(0))), Not(e.nil)))
        st.assume(Implies(slt(bv(0), n), e.nil))
        if b.obj is not None:
            self.e.checkown(st, b)
            st.heap[b.obj] = MCopy(self.e.content(st, b.obj), b.off, n, mem, pos)
        st.heap[self.filekey(st, f)] = ('file', mem, size, add(pos, n))
        return TupleV([n, e])

    def fwriteat(self, st, a, i):
        f, b, off = a
        k = self.filekey(st, f)
        _, mem, size, pos = self.filestate(st, f)
        self.e.oblige(st, 'panic', TRUE, '', '')
        st.heap[k] = ('file', mem, size, off)
        r = self.fwrite(st, [f, b], i)
        _, mem, size, _ = st.heap[k]
        st.heap[k] = ('file', mem, size, pos)
        return r

    def freadat(self, st, a, i):
        f, b, off = a
        k = self.filekey(st, f)
        _, mem, size, pos = self.filestate(st, f)
        st.heap[k] = ('file', mem, size, off)
        r = self.fread(st, [f, b], i)
        n, e = r.v
        st.assume(Implies(slt(n, b.len), TRUE))
        _, mem, size, _ = st.heap[k]
        st.heap[k] = ('file', mem, size, pos)
        return r

    def fname(self, st, a, i):
        if not isinstance(a[0], OPtr):
            self.e.nonnil(st, a[0], i.get('pos', ''))
            return self.e.fbv('fname')
        p = self.fpaths.get(a[0].id.get_id())
        return p if p is not None else z3.Function('fpath', BV64, BV64)(a[0].id)

    def statfs(self, st, a, i):
        self.clobber(st, a[1])
        e = self.err(st)
        self.e.fault(st, e)
        return e

    # ------------------------------------------------------------ hashes
    def hashnew(self, alg, size):
        def h(st, a, i):
            v = HashV(FALSE, None, self.e.fbv('hash'))
            v.size, v.alg, v.fed = size, alg, None
            if alg == 'crc32' and a and not (isinstance(a[0], OPtr) and isval(a[0].id) and cval(a[0].id) == 0xedb88320):
                v.alg = 'crc32?'
            return v
        return h

    def crctable(self, st, a, i):
        return OPtr(bv(cval(a[0]) if isval(a[0]) else 1))

    def iocopy(self, st, a, i):
        e = self.err(st)
        self.e.fault(st, e)
        n = self.e.fbv('n')
        st.assume(sle(bv(0), n))
        src = a[1]
        src = src.dyn[1] if isinstance(src, IfaceV) and src.dyn else src
        dst = a[0]
        if isinstance(dst, HashV) and isinstance(src, OPtr):
            k = self.filekey(st, src)
            f = self.filestate(st, src)
            if isval(f[3]) and cval(f[3]) == 0 and f[0] == 'file' and k[-1] in self.opened:
                key, ver = self.opened[k[-1]]
                st.assume(Implies(e.nil, eq(n, f[2])))
                prev = st.heap.get(('ghost', 'fed', dst.id.get_id()))
                st.heap[('ghost', 'fed', dst.id.get_id())] = (key, ver, e.nil) if prev is None else None
                st.heap[k] = ('file', f[1], f[2], Ite(e.nil, f[2], self.e.fbv('fpos')))
                return TupleV([n, e])
        st.tainted('io.Copy between things that are not modelled')
        return TupleV([n, e])

    def digestbytes(self, alg, key, ver):
        f = z3.Function('digest_' + alg, BV64, BV64, BV64, BV8)
        return MFun(lambda ctx, idx: f(key, ver, idx))

    CSUM = {'md5': 16, 'sha1': 20, 'crc32': 4}

    def digest(self, st, alg, path):
        """zz.Digest: specification function"""
        a = self.S.text(alg)
        if a is None or a.decode() not in self.CSUM:
            raise Unsupported('digest of an unknown kind')
        a = a.decode()
        key = self.fskey(st, path)
        o = self.e.newobj(st, 'arr', self.T.U8, self.digestbytes(a, key, self.version(st, key)))
        n = bv(self.CSUM[a])
        return SliceV(o, bv(0), n, n)

    # ------------------------------------------------------------ interface method calls
    def invoke(self, st, recv, meth, args, i):
        E = self.e
        if isinstance(recv, HashV) and meth == 'Sum':
            pre = args[0]
            n = pre.len if pre.obj is not None else bv(0)
            E.P.n += 1
            fed = st.heap.get(('ghost', 'fed', recv.id.get_id()))
            mem = MBase(self.T.U8, 'digest!%d' % E.P.n)
            if fed is not None and recv.alg in self.CSUM:
                mem = self.digestbytes(recv.alg, fed[0], fed[1])
                if not (isval(n) and cval(n) == 0):
                    b = E.content(st, pre.obj)
                    mem = self.mcopy(st, MFun(lambda ctx, idx, m=b, off=pre.off: m.read(ctx, add(off, idx))), n, bv(recv.size), mem, bv(0))
            elif not (isval(n) and cval(n) == 0):
                st.tainted('a hash appended to what is there')
            o = E.newobj(st, 'arr', self.T.U8, mem)
            ln = add(n, bv(recv.size))
            return SliceV(o, bv(0), ln, ln)
        rid = recv.id if isinstance(recv, IfaceV) and recv.id is not None else E.fbv('recv')
        if isinstance(recv, HashV):
            st.tainted('unmodelled use of a hash: ' + meth)
            st.heap[('ghost', 'fed', recv.id.get_id())] = None
            return self.resultof(st, i, 'inv')
        if meth == 'Error' or meth in ('String', 'Name', 'Network'):
            return z3.Function('m_' + meth, BV64, BV64)(rid)
        if meth == 'Size':
            v = z3.Function('m_size', BV64, BV64)(rid)
            st.assume(sle(bv(0), v))
            return v
        if meth == 'Mode':
            return z3.Function('m_mode', BV64, z3.BitVecSort(32))(rid)
        if meth == 'IsDir':
            return Not(eq(z3.Function('m_mode', BV64, z3.BitVecSort(32))(rid) & bv(1 << 31, 32), bv(0, 32)))
        if meth == 'ModTime':
            s = z3.Function('m_mtime', BV64, BV64)(rid)
            n = z3.Function('m_mtimens', BV64, BV64)(rid)
            st.assume(And(sle(bv(0), n), slt(n, bv(10 ** 9))))
            return StructV([s, n])
        if meth == 'Sys':
            t = self.T.bystr.get('*syscall.Stat_t')
            if t is not None:
                E.assumptions.add('FileInfo.Sys of a file is a *syscall.Stat_t (linux)')
                if rid.get_id() not in self.sysinfo:
                    self.sysinfo[rid.get_id()] = (rid, E.sym(st, t, 'sys'))
                    o = self.sysinfo[rid.get_id()][1].obj
                    self.sysinfo[rid.get_id()] += (st.heap[o],)
                v = self.sysinfo[rid.get_id()]
                st.heap.setdefault(v[1].obj, v[2])
                c = st.heap[v[1].obj]
                for f in ('Atim', 'Mtim', 'Ctim'):
                    ns = c.f[self.T.fieldidx(self.T.elem(t), f)].f[1]
                    st.assume(And(sle(bv(0), ns), slt(ns, bv(10 ** 9))))
                return IfaceV(FALSE, (t, v[1]))
            return IfaceV(z3.Function('m_sysnil', BV64, z3.BoolSort())(rid), None, z3.Function('m_sys', BV64, BV64)(rid))
        st.tainted('unmodelled interface call: ' + meth)
        for v in args:
            self.clobber(st, v)
        return self.resultof(st, i, 'inv')

    # ------------------------------------------------------------ channels, floats
    def recv(self, st, fr, i, ch):
        E = self.e
        E.nonnil(st, ch, i.get('pos', ''))
        if isinstance(ch, OPtr):
            raise Unsupported('receive from an unknown channel')
        q = E.content(st, ch.obj)
        if not q:
            raise Unsupported('receive from an empty channel')
        st.heap[ch.obj] = q[1:]
        return E.set(fr, i, TupleV([q[0], TRUE]) if i.get('ok') else q[0])

    def floatconst(self, txt):
        if txt not in self.floats:
            self.floats[txt] = len(self.floats) + 1
        return bv(self.floats[txt])

    def f2i(self, x, w):
        return self.e.fbv('f2i', w)
