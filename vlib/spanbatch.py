"""Batch span processor adapter for vlib.batchsim (import after vsched.install())."""
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ReadableSpan, SynchronousMultiSpanProcessor
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.trace import SpanContext, TraceFlags

RES = Resource({})


def make_item(n, sampled):
    s = ReadableSpan(name="s%d" % n, context=SpanContext(1, n + 1, False, TraceFlags((1 if sampled else 0) | (2 if n % 3 == 1 else 0))), resource=RES)
    return s, n + 1


def key_of(span):
    return span.context.span_id


class Exp(SpanExporter):
    def __init__(self, r):
        self.r = r

    def export(self, spans):
        return SpanExportResult.SUCCESS if self.r.export(spans) else SpanExportResult.FAILURE

    def shutdown(self):
        self.r.shutdown()


class Direct:
    def __init__(self, r, q, b, delay):
        self.p = BatchSpanProcessor(Exp(r), max_queue_size=q, schedule_delay_millis=delay, max_export_batch_size=b)

    def put(self, span):
        self.p.on_end(span)

    def flush(self, ms):
        return self.p.force_flush() if ms is None else self.p.force_flush(ms)

    def shutdown(self):
        self.p.shutdown()


class Composite(Direct):
    """Behind the sequential composite of a tracer provider."""

    def __init__(self, r, q, b, delay):
        super().__init__(r, q, b, delay)
        inner, self.p = self.p, SynchronousMultiSpanProcessor()
        self.p.add_span_processor(inner)
