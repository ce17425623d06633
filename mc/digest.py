"""Prints, for every zoo entry and several seeds, a digest of what it emits.

Run as its own process (with the standard random module untouched)."""
import hashlib
import json
import sys
import warnings

PROBE = (None, 3, 1, 5, 0, 2, 4)


def emission(obj, schema_or_field):
    out = []
    for k in PROBE:
        try:
            if schema_or_field:
                out.append(obj())
            else:
                out.append(obj() if k is None else obj(k))
        except ValueError as e:
            out.append('ValueError')
    return repr(out)


def digests(zoo, seeds):
    res = {}
    for group, sf in ((zoo.EMITTERS, 0), (zoo.FIELDS, 1), (zoo.SCHEMAS, 1)):
        for name, build in group:
            for s in seeds:
                text = emission(build(s), sf)
                res['%s/%r' % (name, s)] = hashlib.sha1(
                    text.encode()).hexdigest()[:16]
    return res


SEEDS = [0, 1, -7, 2 ** 70, 'seed', 'caf\u00e9', b'bytes', 3.25, True, '']

if __name__ == '__main__':
    warnings.simplefilter('ignore')
    sys.path.insert(0, sys.argv[1])
    from mc import zoo
    json.dump(digests(zoo, SEEDS), sys.stdout)
