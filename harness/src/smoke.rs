use crate::util::*;

harness! {
    fn h_smoke() {
        block_on(async {
            let v = sym_u32("v");
            let pid = Process::spawn(async move {
                let m = Process::receive::<u32>().await;
                if let Message::User(x) = m {
                    check(x == v, "payload");
                    cover(1);
                }
            });
            Process::send(pid, v);
            quiesce().await;
            check(!Process::alive(pid), "still alive");
            cover(2);
        });
    }
}
