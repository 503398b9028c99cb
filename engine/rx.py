"""Small static checks on regular expressions (syntax of the regex crate)."""
import re, warnings
warnings.simplefilter("ignore", FutureWarning)


def norm(p):
    p = re.sub(r'\(\?P?<([A-Za-z_]\w*)>', r'(?P<\1>', p)
    p = re.sub(r'\\x\{([0-9A-Fa-f]+)\}', lambda m: re.escape(chr(int(m.group(1), 16))), p)
    p = re.sub(r'\\u\{([0-9A-Fa-f]+)\}', lambda m: re.escape(chr(int(m.group(1), 16))), p)
    p = re.sub(r'\\[pP]\{[A-Za-z_=]+\}', r'\\w', p)
    p = re.sub(r'\\[pP][A-Z]', r'\\w', p)
    p = p.replace(r'\z', r'\Z')
    return p


def unflag(p):
    """flags in the middle of a pattern, and repetition of a repetition, are fine in Rust"""
    p = re.sub(r'\(\?[imsUux]*(?:-[imsUux]+)?\)', '', p)
    p = re.sub(r'\(\?[imsUux]*(?:-[imsUux]+)?:', '(?:', p)
    return p


def valid(p, flags=()):
    fl = 0
    for f in flags:
        if f == ('case_insensitive', True):
            fl |= re.I
        if f == ('ignore_whitespace', True):
            fl |= re.X
    p = unflag(p)
    try:
        re.compile(norm(p), fl)
        if re.search(r'(?<!\\)\(\?(=|!|<=|<!)', p):
            return False        # look-around is not supported by the regex crate
        if re.search(r'(?<!\\)(?:\\\\)*\\[1-9]', p):
            return False        # no back-references either
        return True
    except (re.error, OverflowError, RecursionError):
        return False


def groups(p):
    """number of groups, the whole match included; None when the pattern is not understood"""
    try:
        return re.compile(norm(unflag(p))).groups + 1
    except (re.error, OverflowError, RecursionError):
        return None
