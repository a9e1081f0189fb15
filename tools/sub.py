"""sub(path, old, new[, count]): exact replacement that keeps a file's line endings."""
def sub(path, old, new, count=1):
    b = open(path, newline='').read()
    if '\r\n' in b:
        old = old.replace('\r\n', '\n').replace('\n', '\r\n')
        new = new.replace('\r\n', '\n').replace('\n', '\r\n')
    n = b.count(old)
    if n < 1 or (count and n != count):
        raise SystemExit(f"{path}: {n} matches for {old[:80]!r}")
    open(path, 'w', newline='').write(b.replace(old, new))
