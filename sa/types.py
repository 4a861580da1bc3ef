"""Classification of C++ type spellings into the value categories of the engine."""
import re
from functools import lru_cache

CONT = ('std::deque', 'std::vector', 'std::list', 'std::array', 'std::initializer_list',
        'google::protobuf::RepeatedField', 'google::protobuf::RepeatedPtrField',
        '::google::protobuf::RepeatedField', '::google::protobuf::RepeatedPtrField', 'std::forward_list')
SETS = ('std::set', 'std::unordered_set', 'std::multiset')
MAPS = ('std::map', 'std::unordered_map')


class Types:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.smemo = {}

    @staticmethod
    def strip(qt):
        q = qt.strip()
        if ' (&)[' in q:
            q = q.replace(' (&)[', '[')
        while True:
            if q.endswith('&'):
                q = q.rstrip('&').strip()
            elif q.endswith(' const'):
                q = q[:-6].strip()
            elif q.startswith('const '):
                q = q[6:].strip()
            elif q.startswith('volatile '):
                q = q[9:].strip()
            elif q.startswith('struct '):
                q = q[7:].strip()
            elif q.startswith('class '):
                q = q[6:].strip()
            elif q.startswith('enum '):
                q = q[5:].strip()
            elif q.startswith('::'):
                q = q[2:]
            else:
                break
        return q

    def norm(self, qt):
        r = self.smemo.get(qt)
        if r is None:
            q = self.strip(qt)
            for _ in range(4):
                a = self.P.aliases.get(q) or self.P.aliases.get('craft::' + q)
                if a is None:
                    # typedef members such as Raft::StepFunc
                    c = [v for k, v in self.P.aliases.items() if k.endswith('::' + q)] if q and '<' not in q and ' ' not in q and '(' not in q else []
                    a = c[0] if len(set(c)) == 1 else None
                if a is None or self.strip(a) == q:
                    break
                q = self.strip(a)
            if 'craft::' + q in self.P.records:
                q = 'craft::' + q
            elif q not in self.P.records and re.fullmatch(r'[\w:]+', q):
                c = [k for k in self.P.records if k.endswith('::' + q)]
                if len(c) == 1:
                    q = c[0]
            r = self.smemo[qt] = q
        return r

    def base(self, qt):
        q = self.norm(qt)
        i = q.find('<')
        return q[:i].strip() if i >= 0 else q

    def args(self, qt):
        q = self.norm(qt)
        i = q.find('<')
        if i < 0:
            return []
        s = q[i + 1:q.rfind('>')]
        out, d, cur = [], 0, ''
        for c in s:
            if c in '<(':
                d += 1
            elif c in '>)':
                d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            out.append(cur.strip())
        return out

    def cat(self, qt):
        """ int bool ptr str seq set map struct opt fn iter status void arr"""
        r = self.memo.get(qt)
        if r is None:
            r = self.memo[qt] = self._cat(qt)
        return r

    def _cat(self, qt):
        q = self.norm(qt)
        b = self.base(qt)
        if q.endswith('*'):
            if re.fullmatch(r'(const )?char \*', q):
                return 'str'
            return 'ptr'
        if b in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
            return 'ptr'
        if b == 'nullptr_t' or b == 'std::nullptr_t':
            return 'ptr'
        if b in ('std::basic_string', 'std::string', 'std::basic_string_view', 'std::string_view', 'std::basic_stringstream',
                 'std::basic_ostringstream', 'std::basic_ostream', 'std::stringstream', '__ostream_type', 'std::ostream'):
            return 'str'
        if b.startswith('std::__cxx11::basic_string'):
            return 'str'
        if re.search(r'\[\d*\]$', q):
            return 'arr'
        if b in SETS:
            return 'set'
        if b in MAPS:
            return 'map'
        if b in CONT:
            return 'seq'
        if b == 'std::optional':
            return 'opt'
        if '::*)(' in q:
            return 'fn'
        if b == 'std::function' or b == 'std::_Bind' or b.startswith('std::_Bind') or '(lambda at' in q:
            return 'fn'
        if 'iterator' in b.lower() or b in ('std::reverse_iterator', 'std::_Rb_tree_iterator'):
            return 'iter'
        if b in ('std::tuple', 'std::pair'):
            return 'struct'
        if q in ('craft::Status',):
            return 'status'
        if q in self.P.records:
            return 'struct'
        if q.startswith('raftpb::') and q[8:] in self.P.protos['messages']:
            return 'struct'
        if q == 'bool':
            return 'bool'
        if q == 'void':
            return 'void'
        if re.search(r'\[\d*\]$', q):
            return 'arr'
        return 'int'

    def elem(self, qt):
        """element type of a container / pointee / optional"""
        q = self.norm(qt)
        if q.endswith('*'):
            return q[:-1].strip()
        m = re.match(r'(.*?)\s*\[(\d*)\]$', q)
        if m:
            return m.group(1)
        a = self.args(qt)
        if self.base(qt) in MAPS:
            return 'std::pair<const %s, %s>' % (a[0], a[1])
        return a[0] if a else ''

    def sort(self, qt):
        c = self.cat(qt)
        if c == 'bool':
            return 'b'
        if c == 'int':
            q = self.norm(qt)
            if 'unsigned' in q or q in ('size_t', 'uint64_t', 'uint32_t', 'uint8_t', 'std::size_t', 'size_type', 'Index', 'craft::Index'):
                return 'u'
            if re.fullmatch(r'(long long|long|int|short|char|signed char|int64_t|int32_t|double|float|difference_type|std::ptrdiff_t)', q):
                return 'i'
            return 'u'        # enums
        return {'ptr': 'p', 'str': 's', 'seq': 'c', 'set': 'c', 'map': 'c'}.get(c, 'o')

    def fields(self, qt):
        """[(field key, type)] of a struct type, or None"""
        q = self.norm(qt)
        b = self.base(qt)
        if b in ('std::tuple', 'std::pair'):
            a = self.args(qt)
            if b == 'std::pair':
                return [('first', a[0]), ('second', a[1])] if len(a) > 1 else None
            return [(str(i), t) for i, t in enumerate(a)]
        if q in self.P.records:
            out = []
            R = self.P.records[q]
            for bs in R.bases:
                out += self.fields(bs) or []
            for f in R.fields:
                out.append(((q[7:] if q.startswith('craft::') else q) + '::' + (f.name or ''), f.qt))
            return out
        if q.startswith('raftpb::'):
            m = self.P.protos['messages'].get(q[8:])
            if m:
                return [('pb.' + n.lower(), self.proto_type(ft)) for n, ft in m.items()]
        return None

    PB = {'uint64': 'unsigned long', 'uint32': 'unsigned int', 'int64': 'long', 'int32': 'int', 'bool': 'bool',
          'bytes': 'std::string', 'string': 'std::string'}

    def proto_type(self, ft):
        lab, t = ft[0], ft[1]
        base = self.PB.get(t)
        if base is None:
            t = t.split('.')[-1]
            if t in self.P.protos['enums']:
                base = 'raftpb::' + t
            else:
                base = 'raftpb::' + t
                if lab == 'repeated':
                    return 'google::protobuf::RepeatedPtrField<%s>' % base
                return base
        if lab == 'repeated':
            return 'google::protobuf::RepeatedField<%s>' % base
        return base
