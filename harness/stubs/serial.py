"""Stands in for pyserial: ports which deliver what the monitor feeds."""
PORTS = {}
class Serial:
    def __init__(self, port, baudrate=9600, timeout=None):
        self.data = bytearray()
        PORTS[port] = self

    @property
    def in_waiting(self):
        return len(self.data)

    def read(self, size=1):
        r, self.data = bytes(self.data[:size]), self.data[size:]
        return r
