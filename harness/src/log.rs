//! Logging is on in every check.

pub fn on() {
    let _ = tracing::subscriber::set_global_default(Log);
}

/// With logging on, what the library logs is computed, too.
struct Log;

impl tracing::Subscriber for Log {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("openid4vp")
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Fields);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Fields);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Fields);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

struct Fields;

impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let _ = format!("{v:?}");
    }
}
