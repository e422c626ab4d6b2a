mod engine;
mod refm;
mod p_color;
mod p_dyn;
mod p_pal;
mod p_quant;
mod rolem;

use engine::{read_replay, Ctx, Tier};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc ID quick|thorough|replay [FILE]");
        std::process::exit(2);
    }
    let id = a[1].as_str();
    let (tier, replay) = match a[2].as_str() {
        "quick" => (Tier::Quick, None),
        "thorough" => (Tier::Thorough, None),
        "replay" => {
            let f = a.get(3).expect("replay FILE");
            let (tier, case) = read_replay(f).expect("readable replay file");
            (tier, Some(case))
        }
        _ => {
            eprintln!("unknown tier");
            std::process::exit(2);
        }
    };
    let mut cx = Ctx::new(id, tier, replay);
    // The tables a check prepares before exploring also call the library, inside its contract.
    match engine::guarded(|| dispatch(id, &mut cx)) {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
        Err(m) => cx.setup_failed(m),
    }
    std::process::exit(cx.finish());
}

fn dispatch(id: &str, cx: &mut Ctx) -> bool {
    p_color::run(id, cx) || p_dyn::run(id, cx) || p_pal::run(id, cx) || p_quant::run(id, cx)
}
