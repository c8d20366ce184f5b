"""Writes document trees (spec/Schema) down as YAML, in one of many equivalent ways."""
import json, random

CASES = [str.lower, str.upper, str.title, lambda s: ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))]
PACKETS = {'!Data', '!Context', '!ExtensionContext', '!Control', '!ExtensionControl', '!Ack', '!ExtensionAck', '!InformationClass'}
ORDERED = {'!DiscreteIO32', '!DiscreteIO64', '!Trailer', '!StreamID'}
MERGE = {'!CIF0', '!CIF1', '!CIF2', '!ControlAcknowledgeMode', '!Timestamp'}
BOOLS = dict(true=['true', 'True', 'TRUE', 'yes', 'on'], false=['false', 'False', 'FALSE', 'no', 'off'])

def canon(n):
    es = [[x['key'], canon(x['val'])] for x in n['e']]
    if n['k'] == 'm' and n['tag'] not in ORDERED:
        es.sort(key=json.dumps)
    return [n['k'], n['tag'], '' if n['k'] == 'i' else n['v'], n['hi'], n['lo'], n['neg'], es]

class Doc:
    def __init__(self, es, rng, fancy=True):
        self.r, self.fancy, self.hidden, self.anchors, self.count = rng, fancy, [], {}, {}
        self.tally(es)
        body = ''.join(self.entry(x['key'], x['val'], 0) for x in es)
        self.text = ('%YAML 1.1\n---\n' if fancy and rng.random() < .1 else '') + ''.join(self.hidden) + body

    def tally(self, es):
        for x in es:
            n = x['val']
            if n['k'] == 'm' and n['tag'] and n['tag'] not in PACKETS:
                c = json.dumps(canon(n)); self.count[c] = self.count.get(c, 0) + 1
            self.tally(n['e'])

    def chance(self, p):
        return self.fancy and self.r.random() < p

    def scalar(self, n):
        k, t = n['k'], (n['tag'] + ' ' if n['tag'] else '')
        if k == 't':
            return n['tag']
        if k == 's':
            s = CASES[n['up']](n['v']) if n['up'] else n['v']
            q = self.r.choice(['', '"', "'"]) if self.fancy else ''
            if s[:1].isdigit() or s in ('', 'yes', 'no', 'on', 'off', 'true', 'false', 'null') or s.startswith('@'):
                q = q or '"'
            return t + q + s + q
        if k == 'i':
            v = n['hi'] * 65536 + n['lo']
            if n['neg']:
                return f'{t}-{v}'
            return t + (self.r.choice([f'0x{v:X}', f'0x{v:x}', f'0x{v:08X}']) if n['v'] == 'hex' else str(v))
        if k == 'b':
            return t + (self.r.choice(BOOLS[n['v']]) if self.fancy else n['v'])
        if k == 'f':
            return t + n['v']
        if k == 'o':
            s = CASES[n['up']]('-'.join(x['key'] for x in n['e']))
            q = self.r.choice(['', '"']) if self.fancy else ''
            return t + q + s + q
        raise ValueError(k)

    def flow(self, n):
        t = n['tag'] + ' ' if n['tag'] else ''
        if n['k'] == 'm':
            return t + '{' + ', '.join(f"{x['key']}: {self.flow(x['val'])}" for x in n['e']) + '}'
        if n['k'] == 'q':
            return t + '[' + ', '.join(self.flow(x['val']) for x in n['e']) + ']'
        s = self.scalar(n)
        return s + ' ' if n['k'] == 't' else s

    def entry(self, key, n, ind):
        """one 'key: value' of a block mapping"""
        pad = ' ' * ind
        note = self.r.choice(['', '  # a remark', '']) if self.chance(.15) else ''
        lead = f'{pad}# {key}\n' if self.chance(.05) else ''
        if self.chance(.08):
            key = f'"{key}"'
        if n['k'] not in ('m', 'q'):
            return f'{lead}{pad}{key}: {self.scalar(n)}{note}\n'
        anchor = ''
        if n['k'] == 'm' and n['tag'] and n['tag'] not in PACKETS:
            c = json.dumps(canon(n))
            if c in self.anchors:
                if self.chance(.7):
                    return f'{lead}{pad}{key}: *{self.anchors[c]}{note}\n'
            elif self.count.get(c, 0) > 1 and self.fancy:
                self.anchors[c] = f'a{len(self.anchors)}'
                anchor = f'&{self.anchors[c]} '
        if not n['e'] or (n['k'] == 'q' and self.chance(.5)) or (n['k'] == 'm' and n['tag'] not in PACKETS and self.chance(.2)):
            return f'{lead}{pad}{key}: {anchor}{self.flow(n)}{note}\n'
        t = f' {anchor}{n["tag"]}'.rstrip() if (anchor or n['tag']) else ''
        if n['k'] == 'q':
            return f'{lead}{pad}{key}:{t}\n' + ''.join(f'{pad}  - {self.flow(x["val"])}\n' for x in n['e'])
        es = n['e']
        if n['tag'] in MERGE and len(es) > 1 and all(x['val']['k'] in 'sb' and not x['val']['tag'] for x in es) and self.chance(.15):
            m = f'm{len(self.hidden)}'
            cut = self.r.randint(1, len(es) - 1)
            self.hidden.append(f'.{m}: &{m}\n' + ''.join(self.entry(x['key'], x['val'], 2) for x in es[:cut]))
            es = es[cut:]
            return f'{lead}{pad}{key}:{t}\n{pad}  <<: *{m}\n' + ''.join(self.entry(x['key'], x['val'], ind + 2) for x in es)
        step = self.r.choice([2, 2, 4]) if self.fancy else 2
        return f'{lead}{pad}{key}:{t}{note}\n' + ''.join(self.entry(x['key'], x['val'], ind + step) for x in es)

def write(es, rng, fancy=True):
    return Doc(es, rng, fancy).text
