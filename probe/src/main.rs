use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for l in std::io::stdin().lock().lines() {
        let l = l.expect("request");
        let r = match std::panic::catch_unwind(|| probe::run(&l)) {
            Ok(None) => "absent".to_string(),
            Ok(Some(Ok(b))) => format!("ok {}", probe::hex(&b)),
            Ok(Some(Err(e))) => format!("error {}", probe::name(e)),
            Err(p) => {
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                format!("panic {}", m.replace('\n', " "))
            }
        };
        writeln!(out, "{r}").expect("answer");
        out.flush().expect("answer");
    }
}
