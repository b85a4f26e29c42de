//! parity digest <from> <to> <step>   digest of every group
//! parity op <group> <k>              digest and text of one operation
use std::panic::catch_unwind;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u32>().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "groups" => println!("{}", parity::groups(a.len() > 2)),
        "screens" => {
            use blitstr::demo;
            let all: [(&str, fn(&mut blitstr::FrBuf)); 3] =
                [("sample_text", demo::sample_text), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)];
            let v: Vec<String> = all
                .iter()
                .map(|(n, f)| {
                    let mut fb = blitstr::new_fr_buf();
                    f(&mut fb);
                    let w: Vec<String> = fb.iter().map(|w| w.to_string()).collect();
                    format!("{{\"name\":\"{}\",\"words\":[{}]}}", n, w.join(","))
                })
                .collect();
            println!("[{}]", v.join(","));
        }
        "digest" => {
            let mut g = n(2);
            while g < n(3) {
                match catch_unwind(|| parity::run(g, None, false)) {
                    Ok(d) => println!("{} {:08x} {}", g, d.at, d.n),
                    Err(_) => println!("{} trap 0", g),
                }
                g += n(4);
            }
        }
        _ => match catch_unwind(|| parity::run(n(2), Some(n(3)), true)) {
            Ok(d) => println!("{:08x} {}", d.at, d.what),
            Err(_) => println!("trap"),
        },
    }
}
