"""C++ type strings -> the verifier's types."""
import re

INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'byte': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'ushort': (16, False),
    'int': (32, True), 'unsigned int': (32, False), 'uint': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'size_t': (64, False), 'ulong': (64, False), 'int32': (32, True), 'int32_t': (32, True), 'uint32_t': (32, False),
    'uint64_t': (64, False), 'int64_t': (64, True), 'uint16_t': (16, False), 'uint8_t': (8, False),
    'streamoff': (64, True), 'streamsize': (64, True), 'ptrdiff_t': (64, True), 'difference_type': (64, True),
    'size_type': (64, False), 'rep': (64, True), '__int128': (128, True), 'wchar_t': (32, True), 'int8_t': (8, True),
}


class T:
    __slots__ = ('k', 'a', 'b', 'name')

    def __init__(self, k, a=None, b=None, name=None):
        self.k, self.a, self.b, self.name = k, a, b, name

    def __repr__(self):
        return '%s%s' % (self.k, '(%s)' % ','.join(str(x) for x in (self.a, self.b, self.name) if x is not None))

    def __eq__(self, o):
        return isinstance(o, T) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


BOOL = T('bool')
VOID = T('void')
INT32 = T('int', 32, True)
U64 = T('int', 64, False)
U8 = T('int', 8, False)
OPAQUE = T('opaque')


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


_qual = re.compile(r'\b(const|volatile|struct|class|enum|typename|mutable)\b')


def norm(s):
    s = _qual.sub('', s)
    s = re.sub(r'\b(std|cornerstone|__cxx11|__detail|__gnu_cxx|chrono|_V2)::', '', s)
    s = re.sub(r'\(anonymous namespace\)::', '', s)
    return re.sub(r'\s+', ' ', s).strip()


class Types:
    def __init__(self, tu):
        self.tu = tu
        self.memo = {}
        self.td = {}
        for k, v in tu.typedefs.items():
            self.td[norm(k)] = v

    def parse(self, s):
        if s in self.memo:
            return self.memo[s]
        t = self._parse(norm(s))
        self.memo[s] = t
        return t

    def of(self, tnode):
        """type of an AST node's 'type' dict"""
        if tnode is None:
            return VOID
        s = tnode.get('desugaredQualType') or tnode['qualType']
        t = self.parse(s)
        if t.k == 'opaque' and s != tnode['qualType']:
            t2 = self.parse(tnode['qualType'])
            if t2.k != 'opaque':
                return t2
        return t

    def _parse(self, s, depth=0):
        if depth > 12:
            return T('opaque', name=s)
        s = s.strip()
        if s.endswith('&&'):
            return T('lref', self._parse(s[:-2], depth + 1), name='rv')
        if s.endswith('&'):
            return T('lref', self._parse(s[:-1], depth + 1))
        if s.endswith('*'):
            return T('ptr', self._parse(s[:-1], depth + 1), name='raw')
        if s == 'bool':
            return BOOL
        if s == 'void':
            return VOID
        if s in INTS:
            b, g = INTS[s]
            return T('int', b, g)
        if s in ('nullptr_t',):
            return T('ptr', VOID, name='raw')
        m = re.match(r'^(.*)\[(\d*)\]$', s)
        if m:
            return T('arr', self._parse(m.group(1), depth + 1), int(m.group(2) or 0))
        if s in self.tu.enums:
            u = self.tu.enum_under.get(s, 'int')
            t = self._parse(norm(u), depth + 1)
            return T('int', t.a, t.b, name=s)
        i = s.find('<')
        if i > 0 and s.endswith('>'):
            head, args = s[:i].strip(), split_args(s[i + 1:-1])
            P = lambda x: self._parse(x, depth + 1)
            if head in ('shared_ptr', 'ptr', 'weak_ptr', '__shared_ptr', '__shared_ptr_access'):
                return T('ptr', P(args[0]), name='shared')
            if head in ('unique_ptr', 'uptr'):
                return T('ptr', P(args[0]), name='unique')
            if head in ('vector', 'list', 'deque'):
                return T('vec', P(args[0]), name=head)
            if head in ('unordered_map', 'map'):
                return T('map', P(args[0]), P(args[1]))
            if head in ('unordered_set', 'set'):
                return T('set', P(args[0]))
            if head in ('atomic', '__atomic_base'):
                return P(args[0])
            if head == 'pair':
                return T('pair', P(args[0]), P(args[1]))
            if head == 'function':
                return T('fn')
            if head in ('basic_string',):
                return T('str')
            if 'iterator' in head or head in ('_Node_const_iterator', '_Node_iterator', '_Rb_tree_iterator', 'move_iterator'):
                return T('iter')
            if head in ('lock_guard', 'unique_lock', 'shared_lock', 'scoped_lock'):
                return T('guard', name=head)
            if head in ('time_point', 'duration'):
                return T('time')
            if head in ('remove_reference', 'remove_cv', 'decay') or head.endswith('_t'):
                return P(args[0])
            if head in ('initializer_list',):
                return T('vec', P(args[0]), name='vector')
            if s in self.tu.records:
                return T('cls', name=s)
            al = self.td.get(head)
            return T('opaque', name=s)
        if s in ('string',):
            return T('str')
        if s in ('mutex', 'recursive_mutex', 'shared_timed_mutex', 'shared_mutex', 'timed_mutex'):
            return T('mutex', name=s)
        if s in ('condition_variable', 'condition_variable_any'):
            return T('cv')
        if s in ('atomic_bool',):
            return BOOL
        if s in ('time_point', 'system_clock::time_point', 'high_resolution_clock::time_point', 'milliseconds'):
            return T('time')
        if s in ('fstream', 'ifstream', 'ofstream', 'basic_fstream', 'ostream', 'istream'):
            return T('opaque', name=s)
        if s in self.td:
            r = norm(self.td[s])
            if r != s:
                return self._parse(r, depth + 1)
        # class-scoped typedef or nested class, e.g. raft_server::peer_itor
        if '::' in s and '(' not in s:
            last = s.split('::')[-1]
            for k, v in self.td.items():
                if k == s or k.endswith('::' + last) and norm(v) != s:
                    t = self._parse(norm(v), depth + 1)
                    if t.k != 'opaque':
                        return t
            if last in INTS:
                b, g = INTS[last]
                return T('int', b, g)
        if s in self.tu.records:
            return T('cls', name=s)
        if '(lambda' in s:
            return T('fn')
        if re.match(r'^[^<]*\(.*\)', s):
            return T('fn')
        for k in self.tu.records:
            if k.endswith('::' + s):
                return T('cls', name=k)
        # class template specialisations written with different spacing
        return T('opaque', name=s)
