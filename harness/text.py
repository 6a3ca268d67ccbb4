"""The text of a cryptarithm (shared by generator and recorder)."""


def word(tokens, case):
    s = ''.join(str(t) if t < 10 else chr(ord('A') + t - 10) for t in tokens)
    return s.lower() if case == 'low' else ''.join(c.lower() if i % 2 else c for i, c in enumerate(s)) if case == 'mix' else s


def text(f, case, sp=''):
    if f[0] == 'w':
        return word(f[1], case)
    a, b = (text(x, case, sp) if x[0] == 'w' or (f[0] == '+' and x is f[1] and x[0] in '+*') or (f[0] not in '+-*&|' and x[0] in ('+', '-', '*'))
            else '(' + text(x, case, sp) + ')' for x in f[1:3])
    return a + sp + f[0] + sp + b
