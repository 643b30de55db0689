"""A deterministic stand-in for the ``jack`` module (JACK-Client for Python and a JACK2 server).

The semantics follow JACK2 and the Python wrapper:

* ports live in numbered slots; a new port takes the first free slot, a ``Port`` object only knows its slot, and two
  ``Port`` objects are equal, if they refer to the same slot. The name of an unregistered slot remains readable.
* ports can only be connected, if both of their clients are active; existing connections cannot be established again.
* deactivating a client drops all of its connections. A process callback, that raises an exception, deactivates it, too.
* the buffer of an output port keeps its content, until it is overwritten; unconnected input ports receive zeros.

The server never runs on its own: the harness calls :meth:`Server.cycle`.
"""
import sys
import types
import numpy

MAX_SHORT_NAME = 200


class JackError(Exception):
    pass


class JackErrorCode(JackError):
    def __init__(self, message, code):
        super().__init__(message)
        self.message, self.code = message, code


class JackOpenError(JackError):
    pass


class CallbackExit(Exception):
    pass


class Status:
    def __init__(self, code=0):
        self.code = code


class Slot:
    def __init__(self, index):
        self.index = index
        self.used = False
        self.name = ""
        self.client = None
        self.is_input = False
        self.buffer = None
        self.serial = 0


class Server:
    def __init__(self, samplerate=44100, blocksize=4):
        self.samplerate = samplerate
        self.blocksize = blocksize
        self.slots = [Slot(i) for i in range(64)]
        self.clients = []
        self.connections = []    # list of (slot, slot)
        self.order = []          # log of connects and disconnects
        self.serial = 0
        self.exceptions = []
        self.hook = None         # is called at each access of the jack API by the clients' methods

    def point(self, name):
        if self.hook is not None:
            self.hook(name)

    def find(self, name):
        for s in self.slots:
            if s.used and s.name == name:
                return s
        return None

    def drop(self, predicate):
        for c in [c for c in self.connections if predicate(c)]:
            self.connections.remove(c)
            self.order.append(("disconnect", c[0].name, c[1].name))

    def pairs(self):
        return [(a.name, b.name) for a, b in self.connections]

    def mix(self, slot):
        """the samples, that an input port receives"""
        slot.buffer[:] = 0.0
        for a, b in self.connections:
            if b is slot:
                slot.buffer += a.buffer
        return slot.buffer

    def cycle(self, blocksize, external=None):
        """one cycle of the server. ``external`` maps names of external output ports to their samples. Returns the
        samples, that each connected or unconnected output port of a client with a callback has put out."""
        if blocksize != self.blocksize:
            self.blocksize = blocksize
            for s in self.slots:
                s.buffer = numpy.zeros(blocksize, dtype=numpy.float32)
        for s in self.slots:
            if s.used and not s.is_input and external and s.name in external:
                s.buffer[:] = external[s.name]
        result = {}
        for client in list(self.clients):
            if client._process is None or not client._active:
                continue
            alive = True
            own = [(s, s.buffer) for s in self.slots if s.used and s.client is client]
            connections = [(a.buffer, b) for a, b in self.connections]
            try:
                client._process(blocksize)
            except CallbackExit:
                alive = False
            except BaseException as e:     # pylint: disable=broad-except
                self.exceptions.append(repr(e))
                alive = False
            # a thread, that has been waiting for the callback, might already have changed the ports
            result[client.name] = [(s.name, s.is_input, s.serial, sum([a for a, b in connections if b is s], numpy.zeros(blocksize))
                                    if s.is_input else buffer.copy()) for s, buffer in own]
            if not alive:
                client._end()
        return result


SERVER = Server()


class Port:
    def __init__(self, slot, client):
        self._ptr = slot
        self._client = client

    def __eq__(self, other):
        return self._ptr == other._ptr

    def __ne__(self, other):
        return not self.__eq__(other)

    def __repr__(self):
        return f"jack.{type(self).__name__}({self.name!r})"

    @property
    def name(self):
        return self._ptr.name

    @property
    def shortname(self):
        return self._ptr.name.split(":", 1)[1] if ":" in self._ptr.name else self._ptr.name

    @property
    def is_input(self):
        return self._ptr.is_input

    @property
    def is_output(self):
        return not self._ptr.is_input

    is_audio = True
    is_midi = False


class OwnPort(Port):
    @property
    def connections(self):
        self._client._server.point("connections")
        other = [b if a is self._ptr else a for a, b in self._client._server.connections if self._ptr in (a, b)] if self._ptr.used else []
        return [self._client._wrap(s) for s in other]

    @property
    def number_of_connections(self):
        return len(self.connections)

    def is_connected_to(self, port):
        self._client._server.point("is_connected_to")
        name = port.name if isinstance(port, Port) else port
        return self._ptr.used and any(self._ptr in c and name in (c[0].name, c[1].name) and
                                      (c[1] if c[0] is self._ptr else c[0]).name == name
                                      for c in self._client._server.connections)

    def connect(self, port):
        if self.is_output:
            self._client.connect(self, port)
        else:
            self._client.connect(port, self)

    def disconnect(self, other=None):
        server = self._client._server
        name = other.name if isinstance(other, Port) else other
        server.drop(lambda c: self._ptr in c and (name is None or name in (c[0].name, c[1].name)))

    def unregister(self):
        self._client._server.point("unregister")
        ports = self._client.inports if self.is_input else self._client.outports
        ports._portlist.remove(self)
        self._client._server.drop(lambda c: self._ptr in c)
        self._ptr.used = False

    def get_array(self):
        if self._ptr.is_input:
            return self._client._server.mix(self._ptr)
        return self._ptr.buffer

    def get_buffer(self):
        return memoryview(self.get_array()).cast("B")


class Ports:
    def __init__(self, client, is_input):
        self._client = client
        self._is_input = is_input
        self._portlist = []

    def __len__(self):
        return len(self._portlist)

    def __getitem__(self, name):
        return self._portlist[name]

    def __iter__(self):
        return iter(self._portlist)

    def __repr__(self):
        return repr(self._portlist)

    def register(self, shortname, is_terminal=False, is_physical=False):   # pylint: disable=unused-argument
        server = self._client._server
        server.point("register")
        shortname.encode()
        name = f"{self._client.name}:{shortname}"
        if server.find(name) is not None or len(shortname) > MAX_SHORT_NAME or not shortname:
            raise JackError(f"{shortname!r}: port registration failed")
        slot = next(s for s in server.slots if not s.used)
        server.serial += 1
        slot.used, slot.name, slot.client, slot.is_input, slot.serial = True, name, self._client, self._is_input, server.serial
        slot.buffer = numpy.zeros(server.blocksize, dtype=numpy.float32)
        port = OwnPort(slot, self._client)
        self._portlist.append(port)
        return port

    def clear(self):
        while self._portlist:
            self._portlist[0].unregister()


class Client:
    def __init__(self, name, use_exact_name=False, no_start_server=False, servername=None, session_id=None):   # pylint: disable=unused-argument
        self._server = SERVER
        names = [c.name for c in self._server.clients]
        self.name = name
        k = 0
        while self.name in names:
            k += 1
            self.name = f"{name}-{k:02d}"
        self.inports = Ports(self, True)
        self.outports = Ports(self, False)
        self._process = self._shutdown = self._samplerate = self._xrun = self._blocksize = None
        self._active = False
        self._closed = False
        self.xrun_delayed_usecs = 0.0
        self._server.clients.append(self)

    samplerate = property(lambda self: self._server.samplerate)
    blocksize = property(lambda self: self._server.blocksize)
    status = property(lambda self: Status(0))
    realtime = False

    def _wrap(self, slot):
        return (OwnPort if slot.client is self else Port)(slot, self)

    def owns(self, port):
        if isinstance(port, str):
            port = self.get_port_by_name(port)
        return port._ptr.client is self

    def get_port_by_name(self, name):
        s = self._server.find(name)
        if s is None:
            raise JackError(f"Port {name!r} not available")
        return self._wrap(s)

    def get_ports(self, name_pattern="", is_audio=False, is_midi=False, is_input=False, is_output=False,     # pylint: disable=unused-argument
                  is_physical=False, can_monitor=False, is_terminal=False):                                  # pylint: disable=unused-argument
        import re
        return [self._wrap(s) for s in self._server.slots
                if s.used and (not is_input or s.is_input) and (not is_output or not s.is_input) and re.search(name_pattern, s.name)]

    def get_all_connections(self, port):
        return [self._wrap(b if a is port._ptr else a) for a, b in self._server.connections if port._ptr in (a, b)]

    def activate(self):
        self._server.point("activate")
        self._active = True
        self._server.point("activated")

    def deactivate(self, ignore_errors=True):     # pylint: disable=unused-argument
        self._server.point("deactivate")
        self._end()

    def _end(self):
        self._active = False
        self._server.drop(lambda c: self in (c[0].client, c[1].client))

    def close(self, ignore_errors=True):          # pylint: disable=unused-argument
        if not self._closed:
            self._closed = True
            self._end()
            self.inports.clear()
            self.outports.clear()
            self._server.clients.remove(self)

    def connect(self, source, destination):
        self._server.point("connect")
        a = self._server.find(source.name if isinstance(source, Port) else source)
        b = self._server.find(destination.name if isinstance(destination, Port) else destination)
        if a is None or b is None or a.is_input or not b.is_input:
            raise JackErrorCode("error connecting", -1)
        if not a.client._active or not b.client._active:
            raise JackErrorCode("ports of inactive clients cannot be connected", -1)
        if (a, b) in self._server.connections:
            raise JackErrorCode("connection already exists", 17)
        self._server.connections.append((a, b))
        self._server.order.append(("connect", a.name, b.name))

    def disconnect(self, source, destination):
        self._server.point("disconnect")
        a = self._server.find(source.name if isinstance(source, Port) else source)
        b = self._server.find(destination.name if isinstance(destination, Port) else destination)
        if (a, b) not in self._server.connections:
            raise JackErrorCode("error disconnecting", -1)
        self._server.drop(lambda c: c == (a, b))

    def set_process_callback(self, callback):
        self._process = callback

    def set_shutdown_callback(self, callback):
        self._shutdown = callback

    def set_samplerate_callback(self, callback):
        self._samplerate = callback

    def set_blocksize_callback(self, callback):
        self._blocksize = callback

    def set_xrun_callback(self, callback):
        self._xrun = callback


def install():
    """makes ``import jack`` return this module; must be called before importing sumpf"""
    module = types.ModuleType("jack")
    for name in ("JackError", "JackErrorCode", "JackOpenError", "CallbackExit", "Status", "Port", "OwnPort", "Ports", "Client"):
        setattr(module, name, globals()[name])
    module.client_name_size = lambda: 65
    module.port_name_size = lambda: 65 + MAX_SHORT_NAME + 1
    sys.modules["jack"] = module
    return module


def reset(samplerate=44100, blocksize=4):
    """a new server without clients"""
    global SERVER     # pylint: disable=global-statement
    SERVER = Server(samplerate, blocksize)
    return SERVER
