"""A stand-in for gRPC channels: import after vsched.install() and before the exporters.

Channels made while a Server is active talk to it; the others are real.
"""
import time

import grpc

REAL = {n: getattr(grpc, n) for n in ("insecure_channel", "secure_channel", "ssl_channel_credentials")}
ACTIVE = None


class Refused(grpc.RpcError):
    def __init__(self, code, metadata=()):
        super().__init__(str(code))
        self._code, self._metadata = code, metadata

    def code(self):
        return self._code

    def details(self):
        return "because"

    def trailing_metadata(self):
        return self._metadata


class Server:
    """script: [(status code name, retry delay in ns or None)], OK when it runs out; every call takes `took` seconds."""

    def __init__(self, sim=None):
        self.sim, self.script, self.seen, self.took, self.channels = sim, [], [], 0, []
        self.credentials = []

    def __enter__(self):
        global ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None

    def answer(self, channel, method, body, metadata, timeout):
        if channel.closed:
            raise ValueError("Cannot invoke RPC on closed channel!")
        code, delay = self.script.pop(0) if self.script else ("OK", None)
        self.seen.append({"at": self.sim.now if self.sim else 0, "code": code, "delay": delay, "method": method, "body": body, "metadata": metadata, "timeout": timeout, "channel": channel, "done": None, "who": self.sim.cur.name if self.sim else ""})
        me = self.seen[-1]
        if self.took:
            end = (self.sim.now if self.sim else 0) + self.took * 1e9
            while not channel.closed and self.sim.now < end:
                time.sleep(min(0.05, (end - self.sim.now) / 1e9))
            if channel.closed and self.sim.now < end:
                me["code"] = "CANCELLED"
                me["done"] = self.sim.now
                raise Refused(grpc.StatusCode.CANCELLED)
        me["done"] = self.sim.now if self.sim else 0
        if code != "OK":
            meta = (("x-other", "1"),)
            if delay is not None:
                from google.rpc.error_details_pb2 import RetryInfo
                info = RetryInfo()
                info.retry_delay.FromNanoseconds(delay)
                meta += (("google.rpc.retryinfo-bin", info.SerializeToString()),)
            raise Refused(grpc.StatusCode[code], meta)


class Channel(grpc.Channel):
    def __init__(self, server, target, credentials, compression, options):
        self.server, self.target, self.credentials, self.compression, self.options, self.closed = server, target, credentials, compression, options, False
        server.channels.append(self)

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, _registered_method=False, **kw):
        def call(request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
            self.server.answer(self, method, request_serializer(request), metadata, timeout)
            return response_deserializer(b"")
        return call

    def _no(self, *a, **kw):
        raise NotImplementedError
    unary_stream = stream_unary = stream_stream = subscribe = unsubscribe = _no

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _insecure(target, options=None, compression=None):
    return Channel(ACTIVE, target, None, compression, options) if ACTIVE else REAL["insecure_channel"](target, options, compression)


def _secure(target, credentials, options=None, compression=None):
    return Channel(ACTIVE, target, credentials, compression, options) if ACTIVE else REAL["secure_channel"](target, credentials, options, compression)


def _credentials(root_certificates=None, private_key=None, certificate_chain=None):
    out = REAL["ssl_channel_credentials"](root_certificates, private_key, certificate_chain)
    if ACTIVE:
        ACTIVE.credentials.append((out, (root_certificates, private_key, certificate_chain)))
    return out


grpc.insecure_channel, grpc.secure_channel, grpc.ssl_channel_credentials = _insecure, _secure, _credentials
