"""Projection of pycaption objects onto the state of the specification."""
from core import cps, inst


def node_lines(nodes):
    """Lines of a caption: text nodes concatenated, broken at BREAK nodes."""
    from pycaption.base import CaptionNode
    lines = [[]]
    for n in nodes:
        if n.type_ == CaptionNode.TEXT:
            lines[-1] += cps(n.content)
        elif n.type_ == CaptionNode.BREAK:
            lines.append([])
    return lines


def cap_basic(c):
    return {"s": inst(c.start), "e": inst(c.end), "lines": node_lines(c.nodes)}


def set_basic(cs):
    """Per language, in order: times and lines."""
    return [{"lang": cps(lang), "caps": [cap_basic(c) for c in cs.get_captions(lang)]}
            for lang in cs.get_languages()]


def style_flags(content, styles, depth=0):
    """Effective i/b/u of a style dict, classes resolved in the set's styles."""
    out = set()
    if depth > 6 or not isinstance(content, dict):
        return out
    if content.get("italics"):
        out.add("i")
    if content.get("bold"):
        out.add("b")
    if content.get("underline"):
        out.add("u")
    classes = content.get("classes") or ([content["class"]] if content.get("class") else [])
    for k in classes:
        sub = styles.get(k)
        if sub and sub is not content:
            out |= style_flags(sub, styles, depth + 1)
    return out


def read_event(ok, val):
    """Result part of a read event."""
    if ok:
        return {"ok": True, "exc": "", "pc": True, "langs": set_basic(val)}
    return {"ok": False, "exc": val["exc"], "pc": val["pc"], "msg": cps(val["msg"][:120]), "langs": []}
