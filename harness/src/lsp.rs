//! Drives the real LSP server over rendezvous channels: the server can only accept the next client
//! message when it has finished handling the previous one, so outputs are attributed exactly.
use crossbeam_channel::{bounded, select, Receiver, Sender};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn to_message(v: &Value) -> lsp_server::Message {
    serde_json::from_value(v.clone()).expect("job contains an invalid LSP message")
}

fn from_message(m: lsp_server::Message) -> Value {
    serde_json::to_value(m).unwrap()
}

enum Sent {
    Ok,
    Closed,
    Hang,
}

fn push(
    tx: &Sender<lsp_server::Message>,
    rx: &Receiver<lsp_server::Message>,
    msg: lsp_server::Message,
    outs: &mut Vec<Value>,
    limit: Duration,
) -> Sent {
    let deadline = Instant::now() + limit;
    loop {
        select! {
            recv(rx) -> m => match m {
                Ok(m) => outs.push(from_message(m)),
                Err(_) => return Sent::Closed,
            },
            send(tx, msg.clone()) -> r => return if r.is_ok() { Sent::Ok } else { Sent::Closed },
            default(deadline.saturating_duration_since(Instant::now())) => return Sent::Hang,
        }
    }
}

/// Runs one session. `msgs[0]` may be an `initialize` request (then the handshake is driven through
/// `initialize`), followed by an `initialized` notification.
pub fn session(job: &Value) -> Value {
    let limit = Duration::from_secs(job["limit"].as_u64().unwrap_or(60));
    let (c_tx, s_rx) = bounded::<lsp_server::Message>(0);
    let (s_tx, c_rx) = bounded::<lsp_server::Message>(0);
    let handshake = job["handshake"].as_bool().unwrap_or(true);
    let caps = job["caps"].clone();
    let name = format!("server-{:?}-{}", std::thread::current().id(), {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        N.fetch_add(1, Ordering::Relaxed)
    });
    let server = std::thread::Builder::new()
        .name(name.clone())
        .stack_size(64 << 20)
        .spawn(move || {
            let connection = lsp_server::Connection { sender: s_tx, receiver: s_rx };
            if handshake {
                let (connection, params) = ink_lsp_server::initialize(connection)?;
                ink_lsp_server::main_loop(connection, params.capabilities)
            } else {
                let caps: lsp_types::ClientCapabilities = serde_json::from_value(caps)?;
                ink_lsp_server::main_loop(connection, caps)
            }
        })
        .unwrap();

    let empty = Vec::new();
    let msgs = job["msgs"].as_array().unwrap_or(&empty);
    let mut steps: Vec<Vec<Value>> = Vec::new();
    let mut status = "ok".to_owned();
    let mut accepted = 0;
    // Index of the step of the last message sent (as opposed to a file system change).
    let mut last_msg: Option<usize> = None;
    // File system effects performed by the *client* between messages (e.g. manifest changes).
    for m in msgs {
        if let Some(fs) = m.get("$fs") {
            apply_fs(fs);
            // The previous message has been accepted but may still be processed: file system changes are
            // only made at quiescent points, which the job marks by sending a probe first.
            steps.push(Vec::new());
            accepted += 1;
            continue;
        }
        let mut outs = Vec::new();
        match push(&c_tx, &c_rx, to_message(m), &mut outs, limit) {
            Sent::Ok => accepted += 1,
            Sent::Closed => status = "closed".to_owned(),
            Sent::Hang => status = "hang".to_owned(),
        }
        // Outputs seen before the acceptance of this message belong to the previous message.
        if let Some(last) = last_msg {
            steps[last].extend(outs);
        }
        if status != "ok" {
            break;
        }
        last_msg = Some(steps.len());
        steps.push(Vec::new());
    }
    // Drain.
    let mut trailing = Vec::new();
    let deadline = Instant::now() + limit;
    if status != "hang" {
        if job["eof"].as_bool().unwrap_or(false) {
            drop(c_tx);
        } else {
            // Keep the channel open while draining (the job normally ends with `exit`).
            loop {
                match c_rx.recv_deadline(deadline) {
                    Ok(m) => trailing.push(from_message(m)),
                    Err(crossbeam_channel::RecvTimeoutError::Timeout) => {
                        status = "hang".to_owned();
                        break;
                    }
                    Err(crossbeam_channel::RecvTimeoutError::Disconnected) => break,
                }
            }
            drop(c_tx);
        }
        while let Ok(m) = c_rx.recv_timeout(Duration::from_secs(5)) {
            trailing.push(from_message(m));
        }
    }
    if let Some(last) = last_msg {
        steps[last].extend(trailing);
    }
    let end = if status == "hang" {
        "hang".to_owned()
    } else {
        match server.join() {
            Ok(Ok(())) => "ok".to_owned(),
            Ok(Err(e)) => format!("err: {e}"),
            Err(_) => {
                let panics = crate::last_panics();
                let panics = panics.lock().unwrap();
                let p = panics
                    .iter()
                    .rev()
                    .find(|p| p.starts_with(&format!("{name}|")))
                    .cloned()
                    .unwrap_or_default();
                format!("panic: {}", p.split_once('|').map(|x| x.1).unwrap_or(""))
            }
        }
    };
    json!({ "steps": steps, "end": end, "accepted": accepted })
}

fn apply_fs(fs: &Value) {
    for item in fs.as_array().unwrap() {
        let path = item["path"].as_str().unwrap();
        match item["text"].as_str() {
            Some(text) => {
                if let Some(dir) = std::path::Path::new(path).parent() {
                    std::fs::create_dir_all(dir).unwrap();
                }
                std::fs::write(path, text).unwrap();
            }
            None => {
                let _ = std::fs::remove_file(path);
            }
        }
    }
}
