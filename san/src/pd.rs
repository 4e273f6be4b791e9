use tokio::net::TcpListener;

/// pd --port N
fn main() -> common::Result<()> {
    let _ = tracing_subscriber::fmt::Subscriber::builder()
        .with_max_level(tracing::Level::INFO)
        .try_init();
    let port = std::env::args().nth(2).unwrap_or_default();
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let listener = TcpListener::bind(&format!("127.0.0.1:{}", port)).await?;
            pd::run(listener).await
        })
}
