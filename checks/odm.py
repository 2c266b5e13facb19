"""Building OData containers from plain specifications, for the OData checks.

A spec is a dict:
  types:   {type name: {"props": [(name, type, facets)], "keys": [names],
                        "stream": bool}}
  complex: {complex type name: [(name, type, facets)]}
  sets:    {entity set name: type name}
  assocs:  [{"name": n, "ends": [(set, mult, role, nav or None), (...)]}]
where a property type is an EDM simple type name or a complex type name and
mult is one of "1", "0..1", "*".
"""
import io
import os
import shutil
import tempfile

from pyslet.odata2 import csdl as edm
from pyslet.odata2 import edmx, memds, sqlds, metadata
from pyslet.vfs import OSFilePath

from . import edmvals as ev

NS = "M"


def attrs(d):
    return "".join(' %s="%s"' % (k, str(v).replace("&", "&amp;").replace(
        '"', "&quot;").replace("<", "&lt;")) for k, v in d.items())


def prop_xml(p):
    name, t, facets = p
    t = "Edm." + t if t in ev.TYPES else NS + "." + t
    return '<Property Name="%s" Type="%s"%s/>' % (name, t, attrs(facets))


def to_xml(spec):
    o = ['<?xml version="1.0" encoding="utf-8"?>'
         '<edmx:Edmx Version="1.0" '
         'xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx" '
         'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/'
         'metadata"><edmx:DataServices m:DataServiceVersion="2.0">'
         '<Schema Namespace="%s" '
         'xmlns="http://schemas.microsoft.com/ado/2006/04/edm">'
         '<EntityContainer Name="C" m:IsDefaultEntityContainer="true">' % NS]
    for s, t in spec["sets"].items():
        o.append('<EntitySet Name="%s" EntityType="%s.%s"/>' % (s, NS, t))
    for a in spec.get("assocs", ()):
        o.append('<AssociationSet Name="%s" Association="%s.%s">' % (
            a["name"], NS, a["name"]))
        for s, m, r, n in a["ends"]:
            o.append('<End Role="%s" EntitySet="%s"/>' % (r, s))
        o.append('</AssociationSet>')
    o.append(spec.get("container_xml", ""))
    o.append('</EntityContainer>')
    for tname, t in spec["types"].items():
        o.append('<EntityType Name="%s"%s><Key>' % (
            tname, ' m:HasStream="true"' if t.get("stream") else ""))
        for k in t["keys"]:
            o.append('<PropertyRef Name="%s"/>' % k)
        o.append('</Key>')
        for p in t["props"]:
            o.append(prop_xml(p))
        for a in spec.get("assocs", ()):
            for i in (0, 1):
                s, m, r, n = a["ends"][i]
                if spec["sets"][s] == tname and n:
                    o.append('<NavigationProperty Name="%s" '
                             'Relationship="%s.%s" FromRole="%s" '
                             'ToRole="%s"/>' % (n, NS, a["name"], r,
                                                a["ends"][1 - i][2]))
        o.append('</EntityType>')
    for cname, props in spec.get("complex", {}).items():
        o.append('<ComplexType Name="%s">' % cname)
        for p in props:
            o.append(prop_xml(p))
        o.append('</ComplexType>')
    for a in spec.get("assocs", ()):
        o.append('<Association Name="%s">' % a["name"])
        for s, m, r, n in a["ends"]:
            o.append('<End Role="%s" Type="%s.%s" Multiplicity="%s"/>' % (
                r, NS, spec["sets"][s], m))
        o.append('</Association>')
    o.append('</Schema></edmx:DataServices></edmx:Edmx>')
    return "".join(o)


def load(spec, cls=metadata.Document):
    doc = cls()
    doc.read(io.BytesIO(to_xml(spec).encode("utf-8")))
    return doc


class Store(object):
    """An open container; use as a context manager"""

    def __init__(self, spec, kind, streams=False):
        self.kind = kind
        self.spec = spec
        self.doc = load(spec)
        self.container = self.doc.root.DataServices[NS + ".C"]
        self.dir = None
        self.db = None
        if kind == "mem":
            self.db = memds.InMemoryEntityContainer(self.container)
        else:
            self.dir = tempfile.mkdtemp(prefix="verif-odm")
            kws = {}
            if streams:
                kws["streamstore"] = sqlds.SQLiteStreamStore(
                    file_path=OSFilePath(self.dir).join("streams.db"),
                    dpath=OSFilePath(self.dir).join("streams"))
            self.db = sqlds.SQLiteEntityContainer(
                file_path=OSFilePath(self.dir).join("test.db"),
                container=self.container, **kws)
            self.db.create_all_tables()

    def es(self, name):
        return self.container[name]

    def open(self, name):
        return self.es(name).open()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        try:
            if self.dir is not None:
                self.db.close()
        finally:
            if self.dir is not None:
                shutil.rmtree(self.dir, ignore_errors=True)


def set_value(e, spec_props, complex_types, values):
    """Sets the data properties of e from a dict name -> payload (a nested
    dict for a complex property)"""
    for name, t, facets in spec_props:
        if name not in values:
            continue
        if t in complex_types:
            set_value(e[name], complex_types[t], complex_types,
                      values[name] or {})
        else:
            e[name].set_from_value(ev.to_python(t, values[name]))


def get_value(e, spec_props, complex_types):
    """Canonical form of the data properties of e"""
    r = {}
    for name, t, facets in spec_props:
        if t in complex_types:
            r[name] = get_value(e[name], complex_types[t], complex_types)
        else:
            r[name] = ev.canon(t, e[name].value)
    return r


def expect_value(values, spec_props, complex_types):
    """What get_value must return after set_value of a complete dict"""
    r = {}
    for name, t, facets in spec_props:
        if t in complex_types:
            r[name] = expect_value(values.get(name) or {}, complex_types[t],
                                   complex_types)
        else:
            r[name] = ev.expect(t, values.get(name))
    return r
