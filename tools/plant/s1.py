import sys; sys.path.insert(0,'/tmp/rwt')
from mk import mk
mk("b01-render",[("src/api/config/mod.rs","if render_height == 0 || render_height > u16::MAX as usize {","if render_height == 0 || render_width > u16::MAX as usize {")],
"C01","a sample aspect ratio well below one, so that the render height exceeds 16 bits while the coded height is valid","an unencodable render height passes validation",
'''use rav1e::prelude::*;
fn main() {
  let mut bad = 0;
  for (w, h, n, d, ok) in [(640, 480, 1, 1, true), (640, 480, 1, 136, true), (640, 480, 1, 137, false), (640, 480, 200, 1, false), (640, 4000, 1, 20, false)] {
    let mut e = EncoderConfig::default();
    e.width = w; e.height = h; e.sample_aspect_ratio = Rational::new(n, d);
    let r = Config::new().with_encoder_config(e).validate();
    if r.is_ok() != ok { println!("{w}x{h} {n}/{d}: {r:?}"); bad += 1; }
  }
  std::process::exit(if bad > 0 { 1 } else { 0 });
}
''')
mk("b02-bygop",[("src/api/channel/by_gop.rs","    self.validate()?;\n","    if slots > 1 {\n      self.validate()?;\n    }\n")],
"C02","a by-GOP channel with a single slot and an invalid configuration","an encoder is created and its workers start for a configuration that was never validated",
'''use rav1e::prelude::*;
fn main() {
  let mut bad = 0;
  for slots in [1, 2] {
    let mut e = EncoderConfig::default();
    e.width = 64; e.height = 64; e.switch_frame_interval = 3;
    let r = Config::new().with_encoder_config(e).new_by_gop_channel::<u8>(slots);
    if r.is_ok() { println!("slots {slots}: accepted"); bad += 1; }
  }
  std::process::exit(if bad > 0 { 1 } else { 0 });
}
''')
mk("b03-tier",[("src/header.rs","if fi.sequence.level_idx[0] > 7 {","if fi.sequence.level_idx[0] > 8 {")],
"C03","a configuration that requests exactly level 4.0","the sequence tier bit is left out at level 4.0, so all later fields of the sequence header are shifted by one bit",
'''include!("enc.rs");
fn main() {
  let out = std::env::args().nth(1).unwrap();
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 96; e.height = 64; e.low_latency = true; e.level_idx = Some(8);
  let p = encode(Config::new().with_encoder_config(e).with_threads(2), 1);
  save(&out, &p);
}
''','''s = [i for k, i in u[0] if k == "SEQ"][0]
assert (s["level"], s["w"], s["h"], s["depth"]) == (8, 96, 64, 8), s
''')
mk("b04-grain",[("src/header.rs","          self.write::<8, u8>(grain_params.cr_mult)?;\n          self.write::<8, u8>(grain_params.cr_luma_mult)?;","          self.write::<8, u8>(grain_params.cr_luma_mult)?;\n          self.write::<8, u8>(grain_params.cr_mult)?;")],
"C04","a film grain table with points for the Cr plane and different multipliers","the two Cr grain multipliers are written in each other's place",
'''include!("enc.rs");
use rav1e::config::{GrainTableSegment};
fn main() {
  let out = std::env::args().nth(1).unwrap();
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 96; e.height = 64; e.low_latency = true;
  let mut g = GrainTableSegment { start_time: 0, end_time: u64::MAX, scaling_points_y: Default::default(), scaling_points_cb: Default::default(),
    scaling_points_cr: Default::default(), scaling_shift: 8, ar_coeff_lag: 0, ar_coeffs_y: Default::default(), ar_coeffs_cb: Default::default(),
    ar_coeffs_cr: Default::default(), ar_coeff_shift: 6, cb_mult: 11, cb_luma_mult: 22, cb_offset: 33, cr_mult: 44, cr_luma_mult: 55, cr_offset: 66,
    overlap_flag: true, chroma_scaling_from_luma: false, grain_scale_shift: 0, random_seed: 1234 };
  g.scaling_points_y.push([0, 20]); g.scaling_points_cb.push([0, 30]); g.scaling_points_cr.push([0, 40]);
  g.ar_coeffs_cb.push(1); g.ar_coeffs_cr.push(2);
  e.film_grain_params = Some(vec![g]);
  save(&out, &encode(Config::new().with_encoder_config(e).with_threads(2), 2));
}
''','''for p in u:
    for k, h in p:
        if k == "FRAME":
            g = h["grain"]
            assert (g["cb"], g["cr"]) == ((11, 22, 33), (44, 55, 66)), g
''')
mk("b06-mdcv",[("src/encoder.rs","  if fi.sequence.mastering_display.is_some() {\n    let mut bw1 =","  if fi.sequence.mastering_display.is_some()\n    && (fi.sequence.content_light.is_none() || fi.input_frameno == 0)\n  {\n    let mut bw1 =")],
"C06","both kinds of HDR metadata configured and a stream with a second key frame","the mastering display metadata is missing from every key frame after the first when content light metadata is present too",
'''include!("enc.rs");
fn main() {
  let out = std::env::args().nth(1).unwrap();
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 64; e.height = 64; e.low_latency = true; e.max_key_frame_interval = 2; e.min_key_frame_interval = 1;
  e.content_light = Some(ContentLight { max_content_light_level: 1000, max_frame_average_light_level: 400 });
  let c = ChromaticityPoint { x: 1, y: 2 };
  e.mastering_display = Some(MasteringDisplay { primaries: [c; 3], white_point: c, max_luminance: 9, min_luminance: 1 });
  save(&out, &encode(Config::new().with_encoder_config(e).with_threads(2), 6));
}
''','''keys = 0
for p in u:
    if any(k == "FRAME" and h["type"] == 0 for k, h in p):
        keys += 1
        t = [b[0] for k, b in p if k == "META"]
        assert sorted(t) == [1, 2], t
assert keys >= 2, keys
''')
