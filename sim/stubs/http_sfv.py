"""Structured field dictionary of inner lists: what keri.end.ending uses."""
import re


class _Item:
    def __init__(self, value):
        self.value = value


class _InnerList(list):
    def __init__(self, vals=()):
        super().__init__(_Item(v) for v in vals)
        self.params = {}


def _ser(v):
    if isinstance(v, bool):
        return "?1" if v else "?0"
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v


class Dictionary(dict):
    def __setitem__(self, k, v):
        super().__setitem__(k, _InnerList(v))

    def __str__(self):
        out = []
        for k, il in self.items():
            s = f"{k}=(" + " ".join(_ser(i.value) for i in il) + ")"
            for pk, pv in il.params.items():
                s += f";{pk}={_ser(pv)}"
            out.append(s)
        return ", ".join(out)

    def parse(self, value):
        if isinstance(value, bytes):
            value = value.decode()
        for m in re.finditer(r'([a-z*][a-z0-9_\-.*]*)=\(([^)]*)\)((?:;[a-z*][a-z0-9_\-.*]*=(?:"[^"]*"|-?\d+))*)', value):
            name, inner, params = m.groups()
            self[name] = re.findall(r'"([^"]*)"', inner)
            for pm in re.finditer(r';([a-z*][a-z0-9_\-.*]*)=(?:"([^"]*)"|(-?\d+))', params):
                self[name].params[pm.group(1)] = int(pm.group(3)) if pm.group(3) else pm.group(2)
