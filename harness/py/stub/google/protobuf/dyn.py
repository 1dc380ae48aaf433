"""Messages, and their descriptors, out of a FileDescriptorSet: what
google.protobuf has of them, as far as a validator reads messages. Written
from protobuf's documentation; the real package is not installed here."""
import re
import struct

from google.protobuf.message import DecodeError, Message

DOUBLE, FLOAT, INT64, UINT64, INT32, FIXED64, FIXED32, BOOL, STRING, GROUP, MESSAGE, BYTES, UINT32, ENUM, SFIXED32, SFIXED64, SINT32, SINT64 = range(1, 19)
_cpp = {INT32: 1, SINT32: 1, SFIXED32: 1, INT64: 2, SINT64: 2, SFIXED64: 2, UINT32: 3, FIXED32: 3, UINT64: 4, FIXED64: 4, DOUBLE: 5, FLOAT: 6, BOOL: 7, ENUM: 8, STRING: 9, MESSAGE: 10, BYTES: 9, GROUP: 10}


# ---- the wire ----------------------------------------------------------------

def _varint(b, i):
    x = n = 0
    while True:
        if i >= len(b):
            raise DecodeError("Truncated message.")
        c = b[i]
        i += 1
        x |= (c & 127) << n
        n += 7
        if c < 128:
            return x & (1 << 64) - 1, i
        if n >= 70:
            raise DecodeError("Too many bytes when decoding varint.")


def _records(b):
    """(number, wire type, value) of each record."""
    i, out = 0, []
    while i < len(b):
        tag, i = _varint(b, i)
        num, wt = tag >> 3, tag & 7
        if num == 0:
            raise DecodeError("bad tag")
        if wt == 0:
            v, i = _varint(b, i)
        elif wt in (1, 5):
            n = 8 if wt == 1 else 4
            v, i = b[i:i + n], i + n
        elif wt == 2:
            n, i = _varint(b, i)
            v, i = b[i:i + n], i + n
        else:
            raise DecodeError("groups are not in this stand-in")
        if i > len(b):
            raise DecodeError("Truncated message.")
        out.append((num, wt, v))
    return out


def _signed(x, bits):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> bits - 1 else x


_fixed = {DOUBLE: "<d", FLOAT: "<f", FIXED64: "<Q", FIXED32: "<I", SFIXED64: "<q", SFIXED32: "<i"}
_wire = {DOUBLE: 1, FIXED64: 1, SFIXED64: 1, FLOAT: 5, FIXED32: 5, SFIXED32: 5, STRING: 2, BYTES: 2, MESSAGE: 2}


def _scalar(t, v):
    if t in _fixed:
        return struct.unpack(_fixed[t], v)[0]
    if t == STRING:
        try:
            return bytes(v).decode("utf-8")
        except UnicodeDecodeError as e:
            raise DecodeError(str(e))
    if t == BYTES:
        return bytes(v)
    if t == BOOL:
        return v != 0
    if t in (INT32, ENUM):
        return _signed(v, 32)
    if t == INT64:
        return _signed(v, 64)
    if t == UINT32:
        return v & 0xffffffff
    if t == UINT64:
        return v
    if t == SINT32:
        v &= 0xffffffff
    return (v >> 1) ^ -(v & 1)


def _packed(t, b):
    i, out = 0, []
    while i < len(b):
        if t in _fixed:
            n = struct.calcsize(_fixed[t])
            out.append(_scalar(t, b[i:i + n]))
            i += n
        else:
            v, i = _varint(b, i)
            out.append(_scalar(t, v))
    return out


def _get(recs, num, wt=2):
    return [v for n, w, v in recs if n == num and w == wt]


def _text(recs, num):
    l = _get(recs, num)
    return bytes(l[-1]).decode("utf-8") if l else ""


def _int(recs, num, d=0):
    l = _get(recs, num, 0)
    return _signed(l[-1], 64) if l else d


# ---- descriptors -------------------------------------------------------------

class _Descriptor(object):
    def _options(self, pool, recs, num, type):
        self._pool, self._raw, self._type, self._opt = pool, b"".join(bytes(x) for x in _get(recs, num)), type, None
        self.has_options = bool(self._raw)

    def GetOptions(self):
        if self._opt is None:
            d = self._pool.messages.get("google.protobuf." + self._type)
            self._opt = new(d) if d else _NoOptions()
            if d:
                self._opt.MergeFromString(self._raw)
        return self._opt

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.full_name)


class _NoOptions(object):
    map_entry = False

    def ListFields(self):
        return []

    def __str__(self):
        return ""


class FileDescriptor(_Descriptor):
    def __init__(self, pool, b):
        recs = _records(b)
        self.name, self.package, self.syntax = _text(recs, 1), _text(recs, 2), _text(recs, 12) or "proto2"
        self.full_name = self.name
        self.pool = pool
        self._options(pool, recs, 8, "FileOptions")
        pre = self.package + "." if self.package else ""
        self.message_types_by_name = {}
        for x in _get(recs, 4):
            d = Descriptor(pool, self, None, pre, x)
            self.message_types_by_name[d.name] = d
        for x in _get(recs, 5):
            EnumDescriptor(pool, self, None, pre, x)
        for x in _get(recs, 7):
            pool.extension(FieldDescriptor(pool, self, None, pre, x))


class Descriptor(_Descriptor):
    def __init__(self, pool, file, up, pre, b):
        recs = _records(b)
        self.file, self.containing_type, self.name = file, up, _text(recs, 1)
        self.full_name = pre + self.name
        self._options(pool, recs, 7, "MessageOptions")
        self.is_extendable, self.extensions = bool(_get(recs, 5)), []
        inner = self.full_name + "."
        self.nested_types = [Descriptor(pool, file, self, inner, x) for x in _get(recs, 3)]
        self.nested_types_by_name = {d.name: d for d in self.nested_types}
        self.enum_types = [EnumDescriptor(pool, file, self, inner, x) for x in _get(recs, 4)]
        self.enum_types_by_name = {d.name: d for d in self.enum_types}
        self.oneofs = [OneofDescriptor(pool, self, inner, i, x) for i, x in enumerate(_get(recs, 8))]
        self.oneofs_by_name = {d.name: d for d in self.oneofs}
        self.fields = [FieldDescriptor(pool, file, self, inner, x) for x in _get(recs, 2)]
        for i, f in enumerate(self.fields):
            f.index = i
        self.fields_by_name = {f.name: f for f in self.fields}
        self.fields_by_camelcase_name = {f.camelcase_name: f for f in self.fields}
        self.fields_by_number = {f.number: f for f in self.fields}
        for x in _get(recs, 6):
            pool.extension(FieldDescriptor(pool, file, self, inner, x))
        pool.messages[self.full_name] = self
        self._entry = bool(_int(_records(self._raw), 7)) if self._raw else False

    @property
    def _concrete_class(self):
        return lambda **k: new(self, **k)


class OneofDescriptor(_Descriptor):
    def __init__(self, pool, up, pre, index, b):
        recs = _records(b)
        self.name, self.containing_type, self.index, self.fields = _text(recs, 1), up, index, []
        self.full_name = pre + self.name
        self._options(pool, recs, 2, "OneofOptions")


class EnumValueDescriptor(_Descriptor):
    def __init__(self, pool, type, index, b):
        recs = _records(b)
        self.name, self.number, self.type, self.index = _text(recs, 1), _signed(_int(recs, 2), 32), type, index
        self.full_name = type.full_name.rpartition(".")[0] + "." + self.name
        self._options(pool, recs, 3, "EnumValueOptions")


class EnumDescriptor(_Descriptor):
    def __init__(self, pool, file, up, pre, b):
        recs = _records(b)
        self.file, self.containing_type, self.name = file, up, _text(recs, 1)
        self.full_name = pre + self.name
        self._options(pool, recs, 3, "EnumOptions")
        self.values = [EnumValueDescriptor(pool, self, i, x) for i, x in enumerate(_get(recs, 2))]
        self.values_by_name = {v.name: v for v in self.values}
        self.values_by_number = {v.number: v for v in reversed(self.values)}
        self.is_closed = file.syntax == "proto2"
        pool.enums[self.full_name] = self


_esc = re.compile(rb"""\\([0-7]{1,3}|x[0-9a-fA-F]{1,2}|.)""", re.S)
_escs = {b"a": b"\a", b"b": b"\b", b"f": b"\f", b"n": b"\n", b"r": b"\r", b"t": b"\t", b"v": b"\v"}


def _unescape(m):
    c = m.group(1)
    if c[:1].isdigit():
        return bytes([int(c, 8) & 255])
    if c[:1] == b"x" and len(c) > 1:
        return bytes([int(c[1:], 16)])
    return _escs.get(c, c)


class FieldDescriptor(_Descriptor):
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3
    MAX_FIELD_NUMBER = (1 << 29) - 1

    def __init__(self, pool, file, up, pre, b):
        recs = _records(b)
        self.file, self.containing_type, self.name, self.number = file, up, _text(recs, 1), _int(recs, 3)
        self.label, self.type = _int(recs, 4, 1), _int(recs, 5)
        self.cpp_type = _cpp[self.type]
        self.full_name = pre + self.name
        self.is_extension, self.extension_scope = False, None
        self._options(pool, recs, 8, "FieldOptions")
        self._type_name, self._extendee, self._default = _text(recs, 6).lstrip("."), _text(recs, 2).lstrip("."), _get(recs, 7)
        self.has_default_value = bool(self._default)
        self.json_name = _text(recs, 10)
        p = self.name.split("_")
        self.camelcase_name = p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])
        self.containing_oneof = None
        i = _get(recs, 9, 0)
        if i and up:
            self.containing_oneof = up.oneofs[i[-1]]
            self.containing_oneof.fields.append(self)
        self.is_repeated, self.is_required = self.label == 3, self.label == 2
        self.is_packed = self.is_repeated and self.type not in (STRING, BYTES, MESSAGE, GROUP)
        self.has_presence = self.label != 3 and (self.type in (MESSAGE, GROUP) or self.containing_oneof is not None or file.syntax == "proto2")

    @property
    def message_type(self):
        return self._pool.messages[self._type_name] if self.type in (MESSAGE, GROUP) else None

    @property
    def enum_type(self):
        return self._pool.enums[self._type_name] if self.type == ENUM else None

    @property
    def default_value(self):
        if self.label == 3:
            return []
        if self.cpp_type == 10:
            return None
        if self._default:
            v = bytes(self._default[-1])
            if self.type == BYTES:
                return _esc.sub(_unescape, v)
            v = v.decode("utf-8")
            if self.type == STRING:
                return v
            if self.type == BOOL:
                return v == "true"
            if self.type == ENUM:
                return self.enum_type.values_by_name[v].number
            if self.type == FLOAT:
                return struct.unpack("<f", struct.pack("<f", float(v)))[0]
            return float(v) if self.type == DOUBLE else int(v)
        if self.type == ENUM:
            return self.enum_type.values[0].number
        return "" if self.type == STRING else b"" if self.type == BYTES else False if self.type == BOOL else 0.0 if self.type in (FLOAT, DOUBLE) else 0


for _n in "DOUBLE FLOAT INT64 UINT64 INT32 FIXED64 FIXED32 BOOL STRING GROUP MESSAGE BYTES UINT32 ENUM SFIXED32 SFIXED64 SINT32 SINT64".split():
    setattr(FieldDescriptor, "TYPE_" + _n, globals()[_n])
for _i, _n in enumerate("INT32 INT64 UINT32 UINT64 DOUBLE FLOAT BOOL ENUM STRING MESSAGE".split()):
    setattr(FieldDescriptor, "CPPTYPE_" + _n, _i + 1)


class Pool(object):
    def __init__(self, b):
        self.messages, self.enums, self.extensions = {}, {}, {}
        self.files = [FileDescriptor(self, x) for x in _get(_records(b), 1)]

    def extension(self, f):
        f.is_extension, f.extension_scope, f.containing_type = True, f.containing_type, None
        self.extensions.setdefault(f._extendee, {})[f.number] = f

    def new(self, name, wire=b""):
        m = new(self.messages[name])
        m.MergeFromString(wire)
        return m


# ---- messages ----------------------------------------------------------------

class RepeatedContainer(list):
    """Equal to lists with the same items, and shown as one."""

    def _no(self, *a, **k):
        raise TypeError("unhashable type")

    __hash__ = None

    def add(self, **k):
        self.append(new(self.type, **k))
        return self[-1]

    def MergeFrom(self, o):
        self.extend(o)


class MapContainer(dict):
    def GetEntryClass(self):
        return self.entry._concrete_class


class DynMessage(Message):
    __slots__ = ["DESCRIPTOR", "_f", "_up"]
    __hash__ = None

    def __init__(self, desc):
        object.__setattr__(self, "DESCRIPTOR", desc)
        object.__setattr__(self, "_f", {})
        object.__setattr__(self, "_up", None)

    # reading

    def _read(self, f):
        if f.name in self._f and not f.is_extension:
            return self._f[f.name]
        if f.label == 3:
            if f.message_type and f.message_type._entry:
                c = MapContainer()
                c.entry = f.message_type
            else:
                c = RepeatedContainer()
                c.type = f.message_type
            self._f[f.name] = c
            return c
        if f.message_type:
            c = new(f.message_type)
            object.__setattr__(c, "_up", (self, f))
            return c
        return f.default_value

    def __getattr__(self, n):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError("%r object has no attribute %r" % (self.DESCRIPTOR.name, n))
        return self._read(f)

    def _has(self, f):
        v = self._f.get(f.full_name if f.is_extension else f.name)
        if f.label == 3:
            return bool(v)
        if v is None:
            return False
        if f.has_presence:
            return True
        return bool(v) or isinstance(v, float) and struct.pack("<d", v) != bytes(8)

    def HasField(self, n):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            if n in self.DESCRIPTOR.oneofs_by_name:
                return self.WhichOneof(n) is not None
            raise ValueError("Protocol message %s has no field %s." % (self.DESCRIPTOR.name, n))
        if not f.has_presence:
            raise ValueError("Protocol message %s has no non-repeated field with presence %s." % (self.DESCRIPTOR.name, n))
        return self._has(f)

    def WhichOneof(self, n):
        for f in self.DESCRIPTOR.oneofs_by_name[n].fields:
            if self._has(f):
                return f.name
        return None

    def ListFields(self):
        l = [(f, self._f[f.name]) for f in self.DESCRIPTOR.fields if self._has(f)]
        for f in self.DESCRIPTOR._pool.extensions.get(self.DESCRIPTOR.full_name, {}).values():
            if self._has(f):
                l.append((f, self._f[f.full_name]))
        return sorted(l, key=lambda x: x[0].number)

    def __str__(self):
        return "".join(self._show(""))

    def _show(self, pre):
        for f, v in self.ListFields():
            n = "[" + f.full_name + "]" if f.is_extension else f.name
            entries = v.items() if isinstance(v, dict) else None
            for x in ([v] if f.label != 3 else v if entries is None else entries):
                if entries is not None:
                    yield "%s%s { key: %r value: %s }\n" % (pre, n, x[0], x[1])
                elif f.message_type:
                    yield "%s%s {\n%s%s}\n" % (pre, n, "".join(x._show(pre + "  ")), pre)
                else:
                    yield "%s%s: %s\n" % (pre, n, '"%s"' % x if isinstance(x, str) else x)

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, DynMessage) and o.DESCRIPTOR is self.DESCRIPTOR and [(f.number, v) for f, v in self.ListFields()] == [(f.number, v) for f, v in o.ListFields()]

    def __ne__(self, o):
        return not self == o

    def IsInitialized(self):
        return True

    # writing

    def _touch(self):
        if self._up:
            m, f = self._up
            m._f[f.name] = self
            m._clear_others(f)
            m._touch()
            object.__setattr__(self, "_up", None)

    def _clear_others(self, f):
        if f.containing_oneof and not f.is_extension:
            for g in f.containing_oneof.fields:
                if g is not f:
                    self._f.pop(g.name, None)

    def __setattr__(self, n, v):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None or f.label == 3 or f.message_type:
            raise AttributeError("Assignment not allowed to %r" % n)
        ok = {9: str if f.type == STRING else bytes, 5: (int, float), 6: (int, float)}.get(f.cpp_type, int)
        if not isinstance(v, ok):
            raise TypeError("%r has type %s, but expected another one" % (v, type(v)))
        self._f[n] = float(v) if f.cpp_type in (5, 6) else v
        self._clear_others(f)
        self._touch()

    def SetInParent(self):
        self._touch()

    def ClearField(self, n):
        self._f.pop(n, None)

    def Clear(self):
        self._f.clear()

    def MergeFrom(self, o):
        for f, v in o.ListFields():
            k = f.full_name if f.is_extension else f.name
            if isinstance(v, dict):
                self._read(f).update(v)
            elif f.label == 3:
                self._read(f).extend(v)
            else:
                self._f[k] = v
        self._touch()

    def CopyFrom(self, o):
        self.Clear()
        self.MergeFrom(o)

    def MergeFromString(self, b):
        d = self.DESCRIPTOR
        exts = d._pool.extensions.get(d.full_name, {})
        self._touch()
        for num, wt, v in _records(b):
            f = d.fields_by_number.get(num) or exts.get(num)
            if f is None:
                continue
            key = f.full_name if f.is_extension else f.name
            want = _wire.get(f.type, 0)
            if f.label == 3 and wt == 2 and want != 2:
                self._f.setdefault(key, RepeatedContainer()).extend(_packed(f.type, v))
                continue
            if wt != want:
                continue
            if f.type == MESSAGE:
                t = f.message_type
                if t._entry and f.label == 3:
                    e = new(t)
                    e.MergeFromString(v)
                    val = e.value
                    if t.fields_by_name["value"].message_type and not e.HasField("value"):
                        val = new(t.fields_by_name["value"].message_type)
                    self._read(f)[e.key] = val
                    continue
                if f.label == 3:
                    x = new(t)
                    self._f.setdefault(key, RepeatedContainer()).append(x)
                elif key in self._f:
                    x = self._f[key]
                else:
                    x = self._f[key] = new(t)
                self._clear_others(f)
                x.MergeFromString(v)
                continue
            x = _scalar(f.type, v)
            if f.label == 3:
                self._f.setdefault(key, RepeatedContainer()).append(x)
                continue
            self._clear_others(f)
            self._f[key] = x
        return len(b)

    def ParseFromString(self, b):
        self.Clear()
        return self.MergeFromString(b)


def new(desc, **k):
    m = DynMessage(desc)
    for n, v in k.items():
        if isinstance(v, Message):
            m._f[n] = v
        elif isinstance(v, (list, tuple)):
            getattr(m, n).extend(v)
        else:
            setattr(m, n, v)
    return m
