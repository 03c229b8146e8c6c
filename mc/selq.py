"""Independent meaning of selectors: syntax trees, matching, specificity, choice.

A tree is ['s', attribute, operator or None, value, ignore_case], or
['is'|'not'|'where'|'and', [trees]].
"""
import itertools


def s(attr, op=None, val=None, ci=False):
    return ['s', attr, op, val, ci]


def text(t, style=0):
    """Spell a tree.  Styles differ in quotes and white space only."""
    if t[0] == 's':
        _, attr, op, val, ci = t
        if op is None:
            return f'[{attr}]' if style != 1 else f'[ {attr} ]'
        if style == 2 and all(c.isascii() and (c.isalpha() or c == '_') for c in val):
            quoted = val
        else:
            q = "'" if style == 1 else '"'
            quoted = q + val.replace('\\', '\\\\').replace(q, '\\' + q) + q
        sp = ' ' if style == 1 else ''
        flag = (' I' if style == 1 else ' i') if ci else ''
        return f'[{sp}{attr}{sp}{op}{sp}{quoted}{flag}{sp}]'
    inner = [text(x, style) for x in t[1]]
    if t[0] == 'and':
        return ('' if style != 1 else ' ').join(inner)
    sep = ',' if style == 2 else ', ' if style == 0 else ' , '
    return f':{t[0]}({sep.join(inner)})'


def match(t, row):
    kind = t[0]
    if kind == 's':
        _, attr, op, val, ci = t
        have = row.get(attr, '')
        if op is None:
            return have != ''
        if ci:
            have, val = have.upper(), val.upper()
        if op == '=':
            return have == val
        if op == '~=':
            word, words = '', []
            for c in have:
                if c in ' \t\n\r\f':
                    words.append(word)
                    word = ''
                else:
                    word += c
            words.append(word)
            return val != '' and val in words
        if op == '|=':
            return have == val or have[:len(val) + 1] == val + '-'
        if op == '^=':
            return have[:len(val)] == val
        if op == '$=':
            return len(have) >= len(val) and have[len(have) - len(val):] == val
        if op == '*=':
            return any(have[i:i + len(val)] == val for i in range(len(have) - len(val) + 1))
        raise ValueError(op)
    if kind == 'and':
        return all(match(x, row) for x in t[1])
    if kind in ('is', 'where'):
        return any(match(x, row) for x in t[1])
    if kind == 'not':
        return not any(match(x, row) for x in t[1])
    raise ValueError(kind)


def specificity(t):
    kind = t[0]
    if kind == 's':
        return (1, 0) if t[2] is None else (1, 1)
    parts = [specificity(x) for x in t[1]]
    if kind == 'and':
        return tuple(map(sum, zip(*parts)))
    if len(parts) == 1 and kind == 'is':
        return parts[0]
    return (0, 0) if kind == 'where' else max(parts)


def choose(groups, row, default):
    """groups: {key: [trees]}.  Greatest specificity held by one key only."""
    best = {}
    for key, trees in groups.items():
        specs = [specificity(t) for t in trees or () if match(t, row)]
        if specs:
            best[key] = max(specs)
    for spec in sorted(set(best.values()), reverse=True):
        keys = [k for k in best if best[k] == spec]
        if len(keys) == 1:
            return keys[0]
    return default
