"""Class layouts, ownership policy and enumerators, read from the compiler's record layout dump of the current sources."""
import re

SIZES = {'_Bool': 1, 'bool': 1, 'char': 1, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'long': 8, 'unsigned long': 8, 'int64_t': 8,
         'uint64_t': 8, 'size_t': 8, 'std::size_t': 8, 'uintmax_t': 8, 'double': 8, 'int32_t': 4, 'uint32_t': 4, 'int16_t': 2, 'short': 2, 'uint8_t': 1,
         'uint16_t': 2, 'float': 4, 'int8_t': 1}


def norm(t):
    t = re.sub(r'\b(struct|class|enum|const|union)\s+', '', t)
    t = t.replace('hsql::', '').replace('std::', '')
    t = re.sub(r'\bint64_t\b', 'long', t)
    t = re.sub(r'\s*([<>,*&])\s*', r'\1', t)
    return t.strip()


class Field:
    __slots__ = ("name", "off", "size", "kind", "own", "elt", "enum", "type")

    def __repr__(self):
        return f"{self.name}@{self.off}:{self.type}{'!' + self.own if self.own else ''}"


class Cls:
    __slots__ = ("name", "size", "fields", "bases", "byoff", "poly")


class Layout:
    def __init__(self, text, headers):
        self.cls = {}
        self.raw = {}
        self.enums = {}
        self.enumval = {}
        self.enumname = {}
        for h in headers:
            self.scan_enums(h)
        for b in text.split('*** Dumping AST Record Layout')[1:]:
            b = b.split('*** Dumping')[0]
            lines = []
            size = None
            for l in b.split('\n'):
                m = re.match(r'^\s*(\d+) \|( *)(.*)$', l)
                if m:
                    lines.append((int(m[1]), (len(m[2]) - 1) // 2, m[3].strip()))
                else:
                    m = re.search(r'\[sizeof=(\d+)', l)
                    if m:
                        size = int(m[1])
            if not lines:
                continue
            name = norm(lines[0][2].replace('(empty)', '').strip())
            self.raw[name] = (size, lines)
        self.setsize = next((s for n, (s, l) in self.raw.items() if n.startswith('unordered_set<')), 56)
        for name, (size, lines) in self.raw.items():
            head = lines[0][2]
            if 'hsql::' not in head and 'HSQL' not in head:
                continue
            if not re.match(r'(struct|class|union) (hsql::\w+|HSQL_\w+|std::pair<[^<>]*>)( \(empty\))?$', head):
                continue
            self.build(name, size, lines)
        for n, (s, l) in self.raw.items():
            if n == 'pair<long,long>':
                self.build(n, s, l)
        self.subs = {n: {n} for n in self.cls}
        for n, c in self.cls.items():
            self._up(n, n)

    def _up(self, n, d):
        for b in self.cls[n].bases:
            if b in self.subs:
                self.subs[b].add(d)
                self._up(b, d)

    def scan_enums(self, text):
        text = re.sub(r'//[^\n]*', '', text)
        text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        for m in re.finditer(r'\benum\s+(?:struct\s+|class\s+)?(\w+)\s*(?::\s*[\w:]+\s*)?\{([^}]*)\}', text):
            v, vals = 0, {}
            for it in m[2].split(','):
                it = it.strip()
                if not it:
                    continue
                if '=' in it:
                    k, x = it.split('=')
                    k = k.strip()
                    x = x.strip()
                    try:
                        v = int(x, 0)
                    except ValueError:
                        v = vals.get(x, 0)
                else:
                    k = it
                vals[k] = v
                v += 1
            self.enums[m[1]] = vals
            for k, x in vals.items():
                self.enumval[(m[1], k)] = x

    def build(self, name, size, lines):
        c = Cls()
        c.name, c.size, c.fields, c.bases, c.poly = name, size, [], [], False
        stack = []          # (level, prefix or None when the contents are skipped)
        stack.append((0, ''))
        for off, lev, txt in lines[1:]:
            while stack and stack[-1][0] >= lev:
                stack.pop()
            prefix = stack[-1][1] if stack else ''
            if prefix is None:
                stack.append((lev, None))
                continue
            if txt.endswith('vtable pointer)'):
                f = Field()
                f.name, f.off, f.size, f.kind, f.own, f.elt, f.enum, f.type = '_vptr', off, 8, 'vptr', None, None, None, 'vptr'
                c.fields.append(f)
                c.poly = True
                stack.append((lev, None))
                continue
            t2 = txt.replace('(empty)', '').strip()
            m = re.match(r'(.*?) \((primary )?base\)$', t2)
            if m:
                b = norm(m[1])
                if prefix == '' and lev == 1:
                    c.bases.append(b)
                stack.append((lev, prefix))
                continue
            ty, fn = t2.rsplit(' ', 1)
            tn = norm(ty)
            f = Field()
            f.name, f.off, f.own, f.elt, f.enum, f.type = prefix + fn, off, None, None, None, tn
            if tn.endswith('*'):
                f.kind, f.size = 'ptr', 8
                p = tn[:-1]
                if p == 'char':
                    f.own = 'char'
                elif p.startswith('vector<') and p.endswith('*>'):
                    f.own = 'vec<' + p[7:-2].split('*,')[0] + '>'
                elif p.startswith('unordered_set<'):
                    f.own = 'set'
                elif p in ('void',) or p.endswith('*'):
                    f.own = None
                else:
                    f.own = p
                c.fields.append(f)
                stack.append((lev, None))
            elif tn.startswith('vector<'):
                f.kind, f.size, f.elt = 'vec', 24, tn[7:].split('*')[0]
                c.fields.append(f)
                stack.append((lev, None))
            elif tn.startswith('basic_string<') or tn in ('string',):
                f.kind, f.size = 'str', 32
                c.fields.append(f)
                stack.append((lev, None))
            elif tn in SIZES or norm('' + tn) in SIZES:
                f.size = SIZES[tn]
                f.kind = 'bool' if tn in ('_Bool', 'bool') else 'fp' if tn in ('double', 'float') else 'int'
                c.fields.append(f)
            elif tn in self.enums:
                f.kind, f.size, f.enum = 'int', 4, tn
                c.fields.append(f)
            elif tn in self.raw:
                stack.append((lev, prefix + fn + '.'))
            else:
                f.kind, f.size = 'opaque', 0
                stack.append((lev, None))
                c.fields.append(f)
        c.byoff = {}
        for f in c.fields:
            c.byoff.setdefault(f.off, f)
        self.cls[name] = c

    def fields(self, name):
        return self.cls[name].fields

    def at(self, name, off):
        return self.cls[name].byoff.get(off)

    def poly(self, name):
        return self.cls[name].poly

    def field(self, cls, name):
        for f in self.cls[cls].fields:
            if f.name == name:
                return f
        return None
