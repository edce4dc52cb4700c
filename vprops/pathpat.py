"""Reference meaning of the tuple patterns of treeutil.select_pattern and treeiter.sender."""


def stage_is(stage, name):
    if stage == '*': return True
    if isinstance(stage, tuple): return any(name == s for s in stage)
    return name == stage


def matches(pattern, path):
    """Does the whole path of names match the pattern?  '**' is any number of levels, including none."""
    if not pattern: return not path
    if pattern[0] == '**':
        return any(matches(pattern[1:], path[i:]) for i in range(len(path) + 1))
    return len(path) > 0 and stage_is(pattern[0], path[0]) and matches(pattern[1:], path[1:])


def stages(ctx, n, kinds, pre='p'):
    return tuple([kinds[ctx.choice('%s%d' % (pre, i), len(kinds))] for i in range(n)])
