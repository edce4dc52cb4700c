"""Document families with symbolic parts: concrete text around arbitrary characters ("holes")."""

# (label, parts): a part is text, or the size of a hole of arbitrary characters
TEMPLATES = [
    ('tag', ['<a', 4, '></a>']),
    ('tagend', ['<a b="c"', 3, '></a>']),
    ('aftername', ['<a ', 4, '="1"></a>']),
    ('aftereq', ['<a b=', 4, '></a>']),
    ('attdq', ['<a b="', 4, '"></a>']),
    ('attsq', ["<a b='", 4, "'></a>"]),
    ('attref', ['<a b="x&', 4, ';"></a>']),
    ('attmid', ['<a b="', 2, '" c=\'', 2, '\'></a>']),
    ('text', ['<a>', 4, '</a>']),
    ('textref', ['<a>x&', 4, ';y</a>']),
    ('numref', ['<a>&#x', 3, ';</a>']),
    ('numref2', ['<a>&#x1F', 3, ';</a>']),
    ('numref3', ['<a>&#x10', 3, 'F;</a>']),
    ('numrefbig', ['<a b="&#x', 1, 'FFFE;', 1, '"></a>']),
    ('numreflong', ['<a b="', 1, '&#x00000000', 2, ';"></a>']),
    ('tworefs', ['<a>&amp;', 2, '&lt;', 1, '</a>']),
    ('refs5', ['<a b="&lt;', 1, '&gt;&quot;', 1, '&apos;&amp;"></a>']),
    ('nest', ['<a><b>', 2, '</b>', 2, '</a>']),
    ('endname', ['<ab></', 4, '></ab>']),
    ('endname2', ['<ab></a', 3, '>']),
    ('endws', ['<ab></ab', 4, '>']),
    ('names', ['<', 2, '></', 2, '>']),
    ('names3', ['<x', 2, '><y', 1, '></y', 1, '></x', 2, '>']),
    ('names4', ['<a', 1, '><b', 1, '><c></c></b', 1, '></a', 1, '>']),
    ('attnames', ['<a b', 1, '="1" b', 1, '="2" b', 1, '="3"></a>']),
    ('dupvalue', ['<a b', 1, '="', 1, '" b', 1, '=\'', 1, '\' c', 1, '="', 1, '"></a>']),
    ('dupvalue2', ['<r><e b', 1, '="v"></e><e b', 1, '="v" b', 1, '="v"></e></r>']),
    ('attws', ['<a', 1, 'b', 1, '=', 1, '"', 1, '"', 1, '></a>']),
    ('before', [4, '<a></a>']),
    ('after', ['<a></a>', 4]),
    ('between', ['<a>', 1, '<b></b>', 1, '<c></c>', 1, '</a>']),
    ('siblings', ['<a><b x="', 1, '"></b><b y="', 1, '">', 1, '</b></a>']),
    ('twodocs', ['<a></a>', 1, '<b></b>']),
    ('unclosed', ['<a><b>', 4]),
    ('unclosed2', ['<a b="1', 4]),
    ('unclosed3', ['<a>&', 4]),
    ('extraend', ['<a></a></', 3]),
    ('mixed', ['<a>', 1, '<b>', 1, '</b>', 1, '<b>', 1, '</b>', 1, '</a>']),
    ('lead', [1, '<', 1, 'a', 1, '>', 1, '</a>']),
    ('trail', ['<a>', 1, '<', 1, '/', 1, 'a', 1, '>', 1]),
    ('deep', ['<a><b><a><b><c>', 2, '</c></b></a></b></a>']),
    ('deepend', ['<a><b><a><b><c></c></b></', 1, '></b></a>', 1]),
    ('cr', ['<a>', 1, '\r', 1, '\n', 1, '</a>']),
    ('cratt', ['<a b="', 1, '\r', 1, '"\r', 1, '></a>']),
    ('comment', ['<a><!--', 2, '--></a>']),
    ('pi', ['<a><?', 2, '?></a>']),
    ('empty', ['<a', 1, '/', 1, '>', 1, '</a>']),
    ('cdatasec', ['<a><![CDATA[', 1, ']]></a>']),
    ('doctype', ['<!DOCTYPE', 1, 'a><a></a>']),
]

# long concrete stretches around holes: buffers, counters and depth limits
def LONG(big):
    n = [300, 3000, 70000][big]
    m = min(n, 9000)
    d = [40, 200, 320][big]
    return [
        ('longtext', ['<a>' + 'x' * n, 1, 'y' * n + '</a>']),
        ('longname', ['<' + 'n' * m, 1, '></' + 'n' * m, 1, '>']),
        ('longatt', ['<a b="' + 'x' * n, 1, 'y' * n + '" c="d"></a>']),
        ('longattname', ['<a ' + 'n' * m, 1, '="', 1, '"></a>']),
        ('longws', ['<a' + ' ' * m, 1, '>' + '\n' * m, 1, '</a' + '\t' * m, 1, '>' + ' ' * m]),
        ('manyrefs', ['<a>' + '&amp;' * (m // 5), 2, '&lt;' * (m // 5) + '</a>']),
        ('manyatts', ['<a' + ''.join(' a%d="%d"' % (i, i) for i in range(d)), 1, 'x="', 1, '"></a>']),
        ('dupatt', ['<a' + ''.join(' a%d="%d"' % (i, i) for i in range(d)), ' a1', 1, '="">', '</a>']),
        ('depth', [''.join('<e%d>' % i for i in range(d)), 1, ''.join('</e%d>' % i for i in range(d - 1, -1, -1))]),
        ('depthbad', [''.join('<e%d>' % i for i in range(d)), '</e', 2, '>', ''.join('</e%d>' % i for i in range(d - 2, -1, -1))]),
        ('wide', ['<r>' + ''.join('<e%d>t%d</e%d>' % (i, i, i) for i in range(d)), 1, '</r>']),
        ('wsbefore', [' \n' * m, 1, '<a></a>' + ' \t' * m, 1]),
    ]


def build(ctx, parts, name='h', dom=None, cap=99):
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, str):
            out.append(p)
            continue
        p = min(p, cap)
        out.append(ctx.text('%s%d' % (name, i), p) if dom is None else ctx.text('%s%d' % (name, i), p, dom))
    return ''.join(out)


# lengths at which something kept in blocks may go wrong
EDGES = [2 ** k + d for k in range(5, 14) for d in (-1, 0, 1)]
FAR = [2 ** k + d for k in (14, 15, 16) for d in (-1, 0, 1)]
