"""Finds references in served files with independent parsers and tokenizers."""
import base64, hashlib, html, os, posixpath, re
from urllib.parse import parse_qs, urlsplit
import html5lib

TAGGED = re.compile(r"""([^\s"'()<>=,]+)\?v=([^\s"'()<>&]*)&(?:amp;)?pv=([^\s"'()<>,&]*)""")


def b64(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode()


def tagged(data):
    """Every `path?v=..&pv=..` in the text, wherever it stands: (path, version, processor version)."""
    text = data.decode("utf-8", "replace")
    return [(html.unescape(m.group(1)), html.unescape(m.group(2)).replace("%3D", "=").replace("%3d", "="), m.group(3)) for m in TAGGED.finditer(text)]


def html_refs(data):
    """(kind, url) for each element reference of a page."""
    doc = html5lib.parse(data.decode("utf-8"), treebuilder="etree", namespaceHTMLElements=False)
    res = []
    for e in doc.iter():
        if not isinstance(e.tag, str):
            continue
        if e.tag == "link" and e.get("href") is not None:
            res.append((e.get("rel", ""), e.get("href")))
        elif e.tag == "script" and e.get("src") is not None:
            res.append(("script", e.get("src")))
    return res


def inline_elements(data):
    doc = html5lib.parse(data.decode("utf-8"), treebuilder="etree", namespaceHTMLElements=False)
    return [e.tag for e in doc.iter() if isinstance(e.tag, str) and (e.tag == "style" or e.tag == "script" and e.get("src") is None)]


IMPORT = re.compile(r"""^\s*import\b[^;'"]*?['"]([^'"]+)['"]""", re.M)
CSSURL = re.compile(r"""url\(\s*(?:"([^"]*)"|'([^']*)'|([^"')\s]*))\s*\)""")


def js_imports(data):
    return IMPORT.findall(data.decode("utf-8"))


def css_urls(data):
    return [a or b or c for a, b, c in CSSURL.findall(data.decode("utf-8"))]


def split(url):
    u = urlsplit(url)
    q = parse_qs(u.query)
    return u.path, q.get("v", [None])[0], q.get("pv", [None])[0]
