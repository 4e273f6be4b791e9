use common::config::CONFIG;
use tokio::{net::TcpListener, signal};

fn main() -> common::Result<()> {
    let _ = tracing_subscriber::fmt::Subscriber::builder()
        .with_max_level(tracing::Level::INFO)
        .try_init();
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let listener = TcpListener::bind(CONFIG.server_addr).await?;
            server::run(listener, signal::ctrl_c()).await;
            Ok(())
        })
}
