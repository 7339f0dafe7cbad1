"""Batch log record processor adapter for vlib.batchsim (import after vsched.install())."""
from opentelemetry.sdk._logs import LogData, LogRecord
from opentelemetry.sdk._logs._internal import SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

RES = Resource({})
SCOPE = InstrumentationScope("s")


def make_item(n, sampled):
    return LogData(LogRecord(observed_timestamp=1, body=n, resource=RES), SCOPE), n


def key_of(data):
    return data.log_record.body


class Exp(LogExporter):
    def __init__(self, r):
        self.r = r

    def export(self, batch):
        return LogExportResult.SUCCESS if self.r.export(batch) else LogExportResult.FAILURE

    def shutdown(self):
        self.r.shutdown()


class Direct:
    def __init__(self, r, q, b, delay):
        self.p = BatchLogRecordProcessor(Exp(r), max_queue_size=q, schedule_delay_millis=delay, max_export_batch_size=b)

    def put(self, data):
        self.p.emit(data)

    def flush(self, ms):
        return self.p.force_flush() if ms is None else self.p.force_flush(ms)

    def shutdown(self):
        self.p.shutdown()


class Composite(Direct):
    """Behind the sequential composite of a logger provider."""

    def __init__(self, r, q, b, delay):
        super().__init__(r, q, b, delay)
        inner, self.p = self.p, SynchronousMultiLogRecordProcessor()
        self.p.add_log_record_processor(inner)

    def flush(self, ms):
        return self.p.force_flush() if ms is None else self.p.force_flush(ms)
