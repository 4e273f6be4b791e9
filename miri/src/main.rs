//! The real server under Miri. MIRI_LIMIT seconds after the start it shuts down by itself.
use std::time::Duration;
fn main() {
    let _ = tracing_subscriber::fmt::Subscriber::builder().with_max_level(tracing::Level::INFO).try_init();
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let limit = env("MIRI_LIMIT", 0);
    let threads = env("MIRI_THREADS", 0) as usize;
    if limit == 0 {
        return;
    }
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
    };
    rt.block_on(async move {
        let l = tokio::net::TcpListener::bind(common::config::CONFIG.server_addr).await.unwrap();
        server::run(l, tokio::time::sleep(Duration::from_secs(limit))).await;
    });
}
