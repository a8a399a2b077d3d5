// included by demos: encode synthetic frames, write packets
use rav1e::prelude::*;
pub fn fill(f: &mut Frame<u8>, n: usize) {
  for (pi, p) in f.planes.iter_mut().enumerate() {
    let stride = p.cfg.stride;
    let w = p.cfg.width;
    for (y, row) in p.data_origin_mut().chunks_mut(stride).enumerate() {
      for (x, v) in row.iter_mut().take(w).enumerate() {
        let t = (x + 3 * n) * (y + 7) / (3 + pi) + (x * 7 + y * 13 + n * 5) % 23;
        *v = (t % 223 + 16) as u8;
      }
    }
  }
}
pub fn encode(cfg: Config, frames: usize) -> Vec<Packet<u8>> {
  let mut ctx: Context<u8> = cfg.new_context().expect("config");
  for n in 0..frames {
    let mut f = ctx.new_frame();
    fill(&mut f, n);
    ctx.send_frame(f).expect("send");
  }
  ctx.flush();
  let mut out = Vec::new();
  loop {
    match ctx.receive_packet() {
      Ok(p) => out.push(p),
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::LimitReached) => break,
      Err(e) => panic!("{e:?}"),
    }
  }
  out
}
pub fn save(path: &str, p: &[Packet<u8>]) {
  let mut b = Vec::new();
  for q in p {
    b.extend_from_slice(&(q.data.len() as u32).to_le_bytes());
    b.extend_from_slice(&q.data);
  }
  std::fs::write(path, b).unwrap();
}
