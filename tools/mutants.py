CX = "src/api/context.rs"
IN = "src/api/internal.rs"
CD = "src/api/channel/data.rs"
m("C08", "bug", CX, "      if self.is_flushing {\n        return Ok(());\n      }\n", "")
m("C08", "bug", CX, "self.inner.limit = Some(self.inner.frame_count);\n      self.is_flushing = true;\n    } else if self.is_flushing\n", "self.inner.limit = Some(self.inner.frame_count + 1);\n      self.is_flushing = true;\n    } else if self.is_flushing\n")
m("C08", "bug", CX, "self.inner.config.still_picture && self.inner.frame_count > 0", "self.inner.config.still_picture && self.inner.frame_count > 1")
m("C08", "bug", IN, "frame_count < limit).unwrap_or(true)", "frame_count <= limit).unwrap_or(true)")
m("C08", "bug", IN, "self.frames_processed == limit).unwrap_or(false)", "self.frames_processed + 1 >= limit).unwrap_or(false)")
m("C08", "bug", IN, "    if let Ok(ref mut pkt) = ret {\n      self.garbage", "    if let Err(EncoderStatus::Encoded) = ret {\n      ret = self.encode_packet(cur_output_frameno + 1);\n    }\n    if let Ok(ref mut pkt) = ret {\n      self.garbage")
m("C08", "same", IN, "    if let Ok(ref mut pkt) = ret {\n      self.garbage_collect(pkt.input_frameno);\n      pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);\n      self.t35_q.remove(&pkt.input_frameno);\n    }\n\n    ret",
  "    match ret {\n      Ok(mut pkt) => {\n        self.t35_q.remove(&pkt.input_frameno);\n        pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);\n        self.garbage_collect(pkt.input_frameno);\n        Ok(pkt)\n      }\n      Err(e) => Err(e),\n    }", "let mut ret = self.encode_packet", "let ret = self.encode_packet")
m("C08", "same", IN, "self.limit.map(|limit| self.frames_processed == limit).unwrap_or(false)", "match self.limit {\n      Some(l) => l == self.frames_processed,\n      None => false,\n    }")
m("C08", "same", CX, "    if frame.is_none() {\n      if self.is_flushing {\n        return Ok(());\n      }\n", "    let end = frame.is_none();\n    if end && self.is_flushing {\n      return Ok(());\n    }\n    if end {\n")
m("C08", "bug", CD, "Err(TrySendError::Full(data))\n    } else {\n      let r = self.sender.try_send(data).map_err(TrySendError::from);\n      if r.is_ok() {\n        self.count += 1;", "Err(TrySendError::Full(data))\n    } else {\n      let r = self.sender.try_send(data).map_err(TrySendError::from);\n      {\n        self.count += 1;")
EN = "src/encoder.rs"
UT = "src/api/util.rs"
m("C09", "bug", IN, "self.t35_q.get(&input_frameno).cloned().unwrap_or_default();", "self.t35_q.remove(&input_frameno).unwrap_or_default();")
m("C09", "bug", IN, "pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);", "pkt.opaque = self.opaque_q.remove(&self.output_frameno);")
m("C09", "bug", IN, "      self.t35_q.insert(input_frameno, params.t35_metadata);", "      if !params.t35_metadata.is_empty() {\n        self.t35_q.insert(self.next_lookahead_frame, params.t35_metadata);\n      }")
m("C09", "bug", EN, "fi.t35_metadata = if fi.show_frame { t35_metadata } else { Box::new([]) };", "fi.t35_metadata = t35_metadata;")
m("C09", "bug", IN, "        params.frame_type_override == FrameTypeOverride::Key".replace("        ","if "), "if params.frame_type_override == FrameTypeOverride::Key && input_frameno > 1")
m("C09", "bug", UT, "impl<T: Pixel> IntoFrame<T> for (Frame<T>, FrameParameters) {\n  fn into(self) -> (Option<Arc<Frame<T>>>, Option<FrameParameters>) {\n    (Some(Arc::new(self.0)), Some(self.1))", "impl<T: Pixel> IntoFrame<T> for (Frame<T>, FrameParameters) {\n  fn into(self) -> (Option<Arc<Frame<T>>>, Option<FrameParameters>) {\n    (Some(Arc::new(self.0)), None)")
m("C09", "bug", IN, "    // Now that we know the input_frameno, look up", "    self.opaque_q.remove(&(input_frameno + 40));\n    // Now that we know the input_frameno, look up")
m("C09", "same", IN, "    if let Some(params) = params {\n      if params.frame_type_override == FrameTypeOverride::Key {\n        self.keyframes_forced.insert(input_frameno);\n      }\n      if let Some(op) = params.opaque {\n        self.opaque_q.insert(input_frameno, op);\n      }\n      self.t35_q.insert(input_frameno, params.t35_metadata);\n    }\n",
  "    if let Some(params) = params {\n      self.file_params(input_frameno, params);\n    }\n",
  "  /// Indicates whether more frames need to be read into the frame queue\n", "  fn file_params(&mut self, n: u64, p: FrameParameters) {\n    let FrameParameters { frame_type_override, opaque, t35_metadata } = p;\n    self.t35_q.insert(n, t35_metadata);\n    match opaque {\n      Some(op) => {\n        self.opaque_q.insert(n, op);\n      }\n      None => {}\n    }\n    if let FrameTypeOverride::Key = frame_type_override {\n      self.keyframes_forced.insert(n);\n    }\n  }\n\n  /// Indicates whether more frames need to be read into the frame queue\n")
m("C10", "bug", IN, "&& prev_input_frameno == (next_keyframe_input_frameno - 1))", "|| prev_input_frameno == (next_keyframe_input_frameno - 1))")
m("C10", "bug", IN, "((output_frameno_in_gop - 1) % self.inter_cfg.group_output_len\n            == 0", "((output_frameno_in_gop - 1) % self.inter_cfg.group_output_len\n            != 1")
m("C10", "bug", IN, "      (order_hint >> self.pyramid_depth) & 3\n", "      (order_hint >> self.pyramid_depth) & 1\n")
m("C10", "bug", EN, "slot_idx + 4 - 1) as u8 % 4", "slot_idx + 4 - 2) as u8 % 4")
m("C10", "bug", EN, "          - (inter_cfg.group_input_len as u32 >> fi.pyramid_level);\n        let lvl1", "          + (inter_cfg.group_input_len as u32 >> fi.pyramid_level);\n        let lvl1")
m("C10", "bug", IN, "&& idx_in_group_output != self.pyramid_depth\n", "\n")
m("C10", "bug", IN, "          *self.gop_output_frameno_start.get_mut(&output_frameno).unwrap() =\n            output_frameno;\n          *self", "          *self.gop_output_frameno_start.get_mut(&output_frameno).unwrap() =\n            output_frameno - 1;\n          *self")
m("C10", "bug", EN, "    if input_frameno >= next_keyframe_input_frameno {\n      // This is an", "    if input_frameno > next_keyframe_input_frameno {\n      // This is an")
m("C10", "bug", EN, "      && (output_frameno_in_gop % inter_cfg.switch_frame_interval == 0)", "      && (output_frameno_in_gop % inter_cfg.switch_frame_interval == 1)")
m("C10", "bug", EN, "    } else if fi.is_show_existing_frame() {\n      0\n", "    } else if fi.is_show_existing_frame() && fi.pyramid_level > 0 {\n      0\n")
m("C10", "same", IN, "    (output_frameno_in_gop - 1) % self.group_output_len\n", "    let n = output_frameno_in_gop - 1;\n    n - (n / self.group_output_len) * self.group_output_len\n")
m("C10", "same", IN, "      self.group_input_len >> idx_in_group_output\n", "      self.group_input_len / (1 << idx_in_group_output)\n")
m("C10", "same", EN, "        let oh = fi.order_hint\n          - (inter_cfg.group_input_len as u32 >> fi.pyramid_level);\n        let lvl1 = pos_to_lvl(oh as u64, inter_cfg.pyramid_depth);\n        if lvl1 == 0 {\n          ((oh >> inter_cfg.pyramid_depth) % 4) as u8\n        } else {\n          3 + lvl1 as u8\n        }\n",
 "        let step = inter_cfg.group_input_len as u32 >> fi.pyramid_level;\n        let oh = fi.order_hint - step;\n        inter_cfg.get_slot_idx(pos_to_lvl(oh as u64, inter_cfg.pyramid_depth), oh) as u8\n")
m("C11", "bug", IN, "      gop_input_frameno_start + self.config.max_key_frame_interval;", "      gop_input_frameno_start + self.config.max_key_frame_interval + 1;")
m("C11", "bug", IN, "find(|&&input_frameno| input_frameno > gop_input_frameno_start)", "find(|&&input_frameno| input_frameno > gop_input_frameno_start + 1)")
m("C11", "bug", IN, "    if keyframes_forced.contains(next_lookahead_frame)\n      ||", "    if keyframes_forced.contains(next_lookahead_frame)\n      &&")
m("C11", "bug", IN, "if !ignore_limit && self.limit.is_some()", "if self.limit.is_some()")
m("C11", "bug", "src/api/config/encoder.rs", "      MAX_MAX_KEY_FRAME_INTERVAL\n    } else {\n      max_interval", "      MAX_MAX_KEY_FRAME_INTERVAL\n    } else {\n      max_interval.max(min_interval)")
m("C11", "bug", IN, "      enc.min_key_frame_interval as usize,\n      enc.max_key_frame_interval as usize,", "      enc.max_key_frame_interval as usize,\n      enc.max_key_frame_interval as usize,")
m("C11", "same", IN, "    let next_detected = self\n      .keyframes\n      .iter()\n      .find(|&&input_frameno| input_frameno > gop_input_frameno_start)\n      .cloned();", "    let next_detected =\n      self.keyframes.range(gop_input_frameno_start + 1..).next().copied();")
m("C11", "same", IN, "    if next_detected.is_none() {\n      return next_limit;\n    }\n    cmp::min(next_detected.unwrap(), next_limit)", "    match next_detected {\n      Some(d) if d < next_limit => d,\n      _ => next_limit,\n    }")
m("C11", "same", IN, "    if keyframes_forced.contains(next_lookahead_frame)\n      || keyframe_detector.analyze_next_frame(\n        lookahead_frames,\n        *next_lookahead_frame as usize,\n        *keyframes.iter().last().unwrap() as usize,\n      )\n    {\n      keyframes.insert(*next_lookahead_frame);\n    }\n\n    *next_lookahead_frame += 1;",
 "    let n = *next_lookahead_frame;\n    let is_key = keyframes_forced.contains(&n) || {\n      let last = *keyframes.iter().last().unwrap();\n      keyframe_detector.analyze_next_frame(\n        lookahead_frames,\n        n as usize,\n        last as usize,\n      )\n    };\n    if is_key {\n      keyframes.insert(n);\n    }\n    *next_lookahead_frame = n + 1;")
EN = "src/encoder.rs"
IN = "src/api/internal.rs"
m("C12", "bug", EN, "    if (fi.refresh_frame_flags & (1 << i)) != 0 {\n      fi.rec_buffer.frames[i] = Some(Arc::clone(&rfs));\n      fi.rec_buffer.deblock[i]", "    if (fi.refresh_frame_flags & (1 << i)) != 0 {\n      fi.rec_buffer.frames[i] = Some(Arc::clone(&rfs));\n      fi.rec_buffer.deblock[i & 3]")
m("C12", "bug", EN, "    output_frameno,\n    segmentation: fs.segmentation,\n  });\n  for i in 0..REF_FRAMES {", "    output_frameno,\n    segmentation: fs.segmentation,\n  });\n  for i in 0..REF_FRAMES - 1 {")
m("C12", "bug", EN, "    ref_frame.map(|rec| rec.segmentation)\n  };", "    ref_frame.filter(|r| r.order_hint <= fi.order_hint).map(|rec| rec.segmentation)\n  };")
m("C12", "bug", EN, "self.sequence.get_relative_dist(hint, self.order_hint) > 0", "self.sequence.get_relative_dist(hint, self.order_hint) >= 0")
m("C12", "bug", EN, "if fs.deblock.levels[0] != 0 || fs.deblock.levels[1] != 0 {\n    fs.apply", "if fs.deblock.levels != [0; 4] {\n    fs.apply")
m("C12", "bug", EN, "    fs.cdfs = cdfs[idx_max];\n    fs.cdfs.reset_counts();", "    fs.cdfs = cdfs[idx_max];")
m("C12", "bug", EN, "    fs.context_update_tile_id = idx_max;\n    fs.cdfs = cdfs[idx_max];", "    fs.context_update_tile_id = idx_max;\n    fs.cdfs = cdfs[cdfs.len() - 1];")
m("C12", "bug", IN, "      if !subsequent_fi.is_show_existing_frame() {\n        break;", "      if subsequent_fi.show_frame {\n        break;")
m("C12", "bug", IN, "      .take_while(|fi| fi.frame_type != FrameType::KEY)\n", "")
m("C12", "bug", IN, "      subsequent_fi.set_ref_frame_sign_bias();\n", "")
m("C12", "bug", IN, "    if self.output_frameno == output_frameno {\n      // We do want", "    if self.output_frameno > output_frameno {\n      // We do want")
m("C12", "bug", IN, "    Arc::get_mut(&mut frame_data.fs.rec).unwrap().pad(\n      frame_data.fi.width,\n      frame_data.fi.height,\n      planes,\n    );\n\n    let (rec, source) = if frame_data.fi.show_frame {\n      (Some(frame_data.fs.rec.clone()), Some(frame_data.fs.input.clone()))\n    } else {\n      (None, None)\n    };\n\n    update_rec_buffer(cur_output_frameno, &mut frame_data.fi, &frame_data.fs);\n",
 "    update_rec_buffer(cur_output_frameno, &mut frame_data.fi, &frame_data.fs);\n    let rec_ref = Arc::make_mut(&mut frame_data.fs.rec);\n    rec_ref.pad(\n      frame_data.fi.width,\n      frame_data.fi.height,\n      planes,\n    );\n\n    let (rec, source) = if frame_data.fi.show_frame {\n      (Some(frame_data.fs.rec.clone()), Some(frame_data.fs.input.clone()))\n    } else {\n      (None, None)\n    };\n")
m("C12", "bug", IN, "      let mut trial_fs = frame_data.fs.clone();\n      let data = encode_frame(&frame_data.fi, &mut trial_fs, &self.inter_cfg);", "      let data =\n        encode_frame(&frame_data.fi, &mut frame_data.fs, &self.inter_cfg);")
m("C12", "same", EN, "  for i in 0..REF_FRAMES {\n    if (fi.refresh_frame_flags & (1 << i)) != 0 {\n      fi.rec_buffer.frames[i] = Some(Arc::clone(&rfs));\n      fi.rec_buffer.deblock[i] = fs.deblock;\n    }\n  }\n}\n\n#[cfg(test)]",
 "  let flags = fi.refresh_frame_flags;\n  for (i, slot) in fi.rec_buffer.frames.iter_mut().enumerate() {\n    if (flags >> i) & 1 == 1 {\n      *slot = Some(Arc::clone(&rfs));\n      fi.rec_buffer.deblock[i] = fs.deblock;\n    }\n  }\n}\n\n#[cfg(test)]")
m("C12", "same", IN, "    let rec_buffer = frame_data.fi.rec_buffer.clone();\n    for subsequent_fi in self\n      .frame_data\n      .iter_mut()\n      .skip_while(|(&output_frameno, _)| output_frameno <= cur_output_frameno)\n", "    let rec_buffer = frame_data.fi.rec_buffer.clone();\n    for subsequent_fi in self\n      .frame_data\n      .range_mut(cur_output_frameno + 1..)\n")
m("C12", "same", EN, "  let segmentation = if fi.primary_ref_frame == PRIMARY_REF_NONE {\n    None\n  } else {\n    let ref_frame_idx = fi.ref_frames[fi.primary_ref_frame as usize] as usize;\n    let ref_frame = fi.rec_buffer.frames[ref_frame_idx].as_ref();\n    ref_frame.map(|rec| rec.segmentation)\n  };\n\n  // return the retrieved instance if any, a new one otherwise\n  segmentation.unwrap_or_default()",
 "  if fi.primary_ref_frame != PRIMARY_REF_NONE {\n    let ref_frame_idx = fi.ref_frames[fi.primary_ref_frame as usize] as usize;\n    if let Some(rec) = &fi.rec_buffer.frames[ref_frame_idx] {\n      return rec.segmentation;\n    }\n  }\n  SegmentationState::default()")
m("C12", "same", EN, "  if fi.sequence.enable_restoration {\n    // Until the loop filters are better pipelined, we'll need to keep\n    // around a copy of both the deblocked and cdeffed frame.\n    let deblocked_frame = (*fs.rec).clone();\n\n    /* TODO: Don't apply if lossless */\n    if fi.sequence.enable_cdef {\n      fs.apply_tile_state_mut(|ts| {\n        let rec = &mut ts.rec;\n        cdef_filter_tile(fi, &deblocked_frame, &blocks.as_tile_blocks(), rec);\n      });\n    }\n    /* TODO: Don't apply if lossless */\n    fs.restoration.lrf_filter_frame(\n      Arc::get_mut(&mut fs.rec).unwrap(),\n      &deblocked_frame,\n      fi,\n    );\n  } else {\n    /* TODO: Don't apply if lossless */\n    if fi.sequence.enable_cdef {\n      let deblocked_frame = (*fs.rec).clone();\n      fs.apply_tile_state_mut(|ts| {\n        let rec = &mut ts.rec;\n        cdef_filter_tile(fi, &deblocked_frame, &blocks.as_tile_blocks(), rec);\n      });\n    }\n  }\n",
 "  let restore = fi.sequence.enable_restoration;\n  if restore || fi.sequence.enable_cdef {\n    let before = (*fs.rec).clone();\n    if fi.sequence.enable_cdef {\n      fs.apply_tile_state_mut(|ts| {\n        cdef_filter_tile(fi, &before, &blocks.as_tile_blocks(), &mut ts.rec);\n      });\n    }\n    if restore {\n      fs.restoration.lrf_filter_frame(\n        Arc::get_mut(&mut fs.rec).unwrap(),\n        &before,\n        fi,\n      );\n    }\n  }\n")
RA = "src/rate.rs"
m("C13", "bug", RA, "      cur_pos = self.buffer_val(self.nframes[fti] as i64, 4, cur_pos);\n    }\n    for fti in 0..FRAME_NSUBTYPES {\n      cur_pos = self.buffer_val(self.exp[fti]", "      cur_pos = self.buffer_val(self.nframes[fti] as u16 as i64, 4, cur_pos);\n    }\n    for fti in 0..FRAME_NSUBTYPES {\n      cur_pos = self.buffer_val(self.exp[fti]")
m("C13", "bug", RA, "    let fti = (ft_val & 0x7FFFFFFF) as usize;", "    let fti = (ft_val & 0x3) as usize;")
m("C13", "bug", RA, "    if s.ntus > total {", "    if s.ntus > total + 1 {")
m("C13", "bug", RA, "      if n < 0 {", "      if n < -1 {")
m("C13", "bug", RA, "    if fti > FRAME_NSUBTYPES {\n      return Err", "    if fti > FRAME_NSUBTYPES + 1 {\n      return Err")
m("C13", "bug", RA, "    let m = self.des.parse_metrics();\n    self.des.pass2_buffer_fill = 0;\n    let m = m?;", "    let m = self.des.parse_metrics()?;\n    self.des.pass2_buffer_fill = 0;")
m("C13", "bug", RA, "        if fmi >= self.frame_metrics.len() {\n          fmi -= self.frame_metrics.len();\n        }\n        self.nframe_metrics += 1;\n        self.frame_metrics[fmi] = m;", "        if fmi > self.frame_metrics.len() {\n          fmi -= self.frame_metrics.len();\n        }\n        self.nframe_metrics += 1;\n        self.frame_metrics[fmi] = m;")
m("C13", "bug", RA, "        if m.show_frame {\n          self.scale_window_ntus += 1;\n        }\n        if frames_needed == 1 {", "        self.scale_window_ntus += 1;\n        if frames_needed == 1 {")
m("C13", "bug", RA, "          if self.prev_metrics.show_frame {\n            self.ntus_left -= 1;\n            self.scale_window_ntus -= 1;\n          }", "          if self.prev_metrics.show_frame {\n            self.ntus_left -= 1;\n          }")
m("C13", "bug", RA, "            self.nframe_metrics -= 1;\n            self.frame_metrics_head += 1;\n            if self.frame_metrics_head >= self.frame_metrics.len() {", "            self.nframe_metrics -= 1;\n            self.frame_metrics_head += 1;\n            if self.frame_metrics_head > self.frame_metrics.len() {")
m("C13", "bug", RA, "      PASS_2 => self.pass2_data_ready,\n      _ => self.pass1_data_retrieved && self.pass2_data_ready,", "      PASS_2 => self.pass2_data_ready,\n      _ => self.pass1_data_retrieved || self.pass2_data_ready,")
m("C13", "bug", RA, "    self.nframes_total = s.nframes;\n    self.nframes_left = s.nframes;", "    self.nframes_total = s.nframes;\n    self.nframes_left = s.nframes;\n    self.nframes_left[FRAME_SUBTYPE_SEF] = 0;")
m("C13", "bug", RA, "        if !trial && self.nframes[fti] < i32::MAX {", "        if self.nframes[fti] < i32::MAX && self.nencoded_frames > 1 {")
m("C13", "bug", "src/api/context.rs", "    if self.inner.done_processing() && self.inner.rc_state.pass1_data_retrieved\n", "    if self.inner.done_processing()\n")
m("C14", "bug", RA, "    let base_q_idx = select_ac_qi(quantizer, bit_depth).max(1);", "    let base_q_idx = select_ac_qi(quantizer, bit_depth);")
m("C14", "bug", RA, "    let min_qi = base_q_idx.saturating_sub(63).max(1);", "    let min_qi = base_q_idx.saturating_sub(64).max(1);")
m("C13", "same", RA, "    while bytes > 0 {\n      bytes -= 1;\n      self.pass1_buffer[cur_pos] = val as u8;\n      cur_pos += 1;\n      val >>= 8;\n    }\n    cur_pos", "    while bytes > 0 {\n      self.pass1_buffer[cur_pos] = (val & 0xFF) as u8;\n      val >>= 8;\n      cur_pos += 1;\n      bytes -= 1;\n    }\n    cur_pos")
m("C13", "same", RA, "      if n < 0 {\n        return Err(\"Got negative frame count\".to_string());\n      }\n      total = total\n        .checked_add(n)\n        .ok_or_else(|| \"Frame count too large\".to_string())?;\n", "      if n <= -1 {\n        return Err(\"Got negative frame count\".to_string());\n      }\n      total = match total.checked_add(n) {\n        Some(t) => t,\n        None => return Err(\"Frame count too large\".to_string()),\n      };\n")
m("C13", "same", RA, "    self.des.buffer_fill(buf, 0, TWOPASS_PACKET_SZ);\n    self.des.pass2_buffer_pos = 0;\n    let m = self.des.parse_metrics();\n    self.des.pass2_buffer_fill = 0;\n    let m = m?;\n", "    self.des.pass2_buffer_pos = 0;\n    self.des.buffer_fill(buf, 0, TWOPASS_PACKET_SZ);\n    let parsed = self.des.parse_metrics();\n    self.des.pass2_buffer_fill = 0;\n    let m = match parsed {\n      Ok(m) => m,\n      Err(e) => return Err(e),\n    };\n")
m("C13", "same", RA, "    match self.twopass_state {\n      PASS_SINGLE => true,\n      PASS_1 => self.pass1_data_retrieved,\n      PASS_2 => self.pass2_data_ready,\n      _ => self.pass1_data_retrieved && self.pass2_data_ready,\n    }", "    let first = self.twopass_state & PASS_1 == 0 || self.pass1_data_retrieved;\n    let second = self.twopass_state & PASS_2 == 0 || self.pass2_data_ready;\n    first && second")
m("C13", "same", RA, "        let mut fmi = self.frame_metrics_head + self.nframe_metrics;\n        if fmi >= self.frame_metrics.len() {\n          fmi -= self.frame_metrics.len();\n        }\n        self.nframe_metrics += 1;\n        self.frame_metrics[fmi] = m;", "        let mut fmi = self.nframe_metrics + self.frame_metrics_head;\n        self.nframe_metrics += 1;\n        if self.frame_metrics.len() <= fmi {\n          fmi -= self.frame_metrics.len();\n        }\n        self.frame_metrics[fmi] = m;")
m("C14", "bug", EN, "    self.cdef_damping = 3 + (self.base_q_idx >> 6);", "    self.cdef_damping = 3 + (self.base_q_idx >> 5);")
m("C14", "bug", EN, "      self.ac_delta_q[pi] = (qps.ac_qi[pi] as i32 - base_q_idx) as i8;", "      self.ac_delta_q[pi] = (qps.ac_qi[pi] as i32 - qps.dc_qi[0] as i32) as i8;")
m("C14", "bug", EN, "clamp((q * q).mul_add(a, q.mul_add(b, c)).round() as i32, 0, max)", "clamp((q * q).mul_add(a, q.mul_add(b, c)).round() as i32, 0, max + 1)")
m("C14", "bug", "src/deblock.rs", "            ((q * 20723 + 16_242_526 + (1 << 22 >> 1)) >> 22) - 4\n          } else {\n            (q * 20723 + 16_242_526 + (1 << 22 >> 1)) >> 22\n          }\n        }\n        _ => unreachable!(),\n      },\n      0,\n      MAX_LOOP_FILTER as i32,", "            ((q * 20723 + 16_242_526 + (1 << 22 >> 1)) >> 22) - 4\n          } else {\n            (q * 20723 + 16_242_526 + (1 << 22 >> 1)) >> 22\n          }\n        }\n        _ => unreachable!(),\n      },\n      0,\n      MAX_LOOP_FILTER as i32 + 1,")
m("C14", "bug", "src/segmentation.rs", "        select_ac_qi(q, fi.config.bit_depth).max(1) as i16\n", "        select_ac_qi(q, fi.config.bit_depth) as i16\n", "    data[SegLvl::SEG_LVL_ALT_Q as usize] = delta.max(offset_lower_limit);", "    data[SegLvl::SEG_LVL_ALT_Q as usize] = delta;")
m("C14", "bug", EN, "    qidx = clamp((qidx as i16) + delta, 0, 255) as u8;", "    qidx = (qidx as i16 + delta) as u8;")
m("C14", "bug", "src/quantize/mod.rs", "    [&ac_qlookup_Q3, &ac_qlookup_10_Q3, &ac_qlookup_12_Q3];\n  let bd = ((bit_depth ^ 8) >> 1).min(2);\n  ac_q[bd][((qindex as isize + delta_q as isize).max(0) as usize).min(255)]", "    [&ac_qlookup_Q3, &ac_qlookup_10_Q3, &ac_qlookup_12_Q3];\n  let bd = ((bit_depth ^ 8) >> 1).min(2);\n  ac_q[bd][qindex.wrapping_add(delta_q as u8) as usize]")
m("C14", "same", RA, "    let clamp_qi = |qi: u8| qi.clamp(min_qi, max_qi);", "    let clamp_qi = |qi: u8| qi.max(min_qi).min(max_qi);")
m("C14", "same", EN, "    self.cdef_damping = 3 + (self.base_q_idx >> 6);", "    self.cdef_damping = (self.base_q_idx / 64 + 3).min(6);")
m("C14", "same", EN, "    qidx = clamp((qidx as i16) + delta, 0, 255) as u8;", "    qidx = (i16::from(qidx) + delta).max(0).min(255) as u8;")
m("C14", "same", "src/quantize/mod.rs", "  ac_q[bd][((qindex as isize + delta_q as isize).max(0) as usize).min(255)]", "  let i = (i32::from(qindex) + i32::from(delta_q)).clamp(0, 255);\n  ac_q[bd][i as usize]")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  static N: std::sync::atomic::AtomicUsize =\n    std::sync::atomic::AtomicUsize::new(0);\n  N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();", "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();\n  if std::env::var(\"RAV1E_X\").is_ok() { fs.enc_stats = Default::default(); }")
m("C15", "bug", EN, "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();", "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      let t0 = std::time::Instant::now();\n      let mut r = encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg);\n      if t0.elapsed().as_secs() > 20 { r.1 = Default::default(); }\n      r\n    })\n    .unzip();")
m("C15", "bug", EN, "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();", "    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();\n  let seen: std::collections::HashSet<usize> =\n    raw_tiles.iter().map(|t: &Vec<u8>| t.len()).collect();\n  for l in seen { if l == 1 { fs.enc_stats = Default::default(); } }")
m("C15", "bug", "src/api/config/mod.rs", "    let mut config = self.enc.clone();\n", "    let mut config = self.enc.clone();\n    if self.threads > 64 { config.tiles = 2; }\n")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  if fi.cpu_feature_level.as_index() > 2 { fs.enc_stats = Default::default(); }\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  if matches!(fi.cpu_feature_level, crate::cpu_features::CpuFeatureLevel::AVX2) { fs.enc_stats = Default::default(); }\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  if (fs as *const _ as *const u8 as usize) & 64 != 0 { fs.enc_stats = Default::default(); }\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });\n  N.with(|n| n.set(n.get() + 1));\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "  let ti = &fi.sequence.tiling;\n\n  let initial_cdf", "  static N: std::sync::OnceLock<u8> = std::sync::OnceLock::new();\n  N.get_or_init(|| fi.base_q_idx);\n  let ti = &fi.sequence.tiling;\n\n  let initial_cdf")
m("C15", "bug", EN, "  let (raw_tiles, stats): (Vec<_>, Vec<_>) = ti\n    .tile_iter_mut(fs, &mut blocks)\n    .zip(cdfs.iter_mut())\n    .collect::<Vec<_>>()\n    .into_par_iter()\n    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();",
 "  let (tx, rx) = crossbeam::channel::unbounded();\n  ti.tile_iter_mut(fs, &mut blocks)\n    .zip(cdfs.iter_mut())\n    .collect::<Vec<_>>()\n    .into_par_iter()\n    .for_each(|(mut ctx, cdf)| {\n      let _ = tx.send(encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg));\n    });\n  drop(tx);\n  let (raw_tiles, stats): (Vec<_>, Vec<_>) = rx.iter().unzip();")
m("C15", "same", EN, "    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .unzip();", "    .map(|(mut ctx, cdf)| {\n      encode_tile(fi, &mut ctx.ts, cdf, &mut ctx.tb, inter_cfg)\n    })\n    .collect::<Vec<_>>()\n    .into_iter()\n    .unzip();")
m("C15", "same", "src/api/config/mod.rs", "    } else if self.threads != 0 {\n      let pool =\n        ThreadPoolBuilder::new().num_threads(self.threads).build().unwrap();", "    } else if self.threads > 0 {\n      let n = self.threads;\n      let pool = ThreadPoolBuilder::new().num_threads(n).build().unwrap();")
m("C15", "same", "src/deblock.rs", "  tile.planes[..planes].par_iter_mut().enumerate().for_each(|(pli, plane)| {\n    deblock_plane(deblock, plane, pli, blocks, crop_w, crop_h, bd);\n  });", "  for (pli, plane) in tile.planes[..planes].iter_mut().enumerate() {\n    deblock_plane(deblock, plane, pli, blocks, crop_w, crop_h, bd);\n  }")
m("C15", "same", EN, "  for tile_stats in stats {\n    fs.enc_stats += &tile_stats;\n  }", "  const NOTHING: u8 = 3;\n  static LIST: [u8; 2] = [1, NOTHING];\n  let _ = LIST.iter().copied().min();\n  let mut q = std::collections::VecDeque::from(stats);\n  while let Some(tile_stats) = q.pop_front() {\n    fs.enc_stats += &tile_stats;\n  }")
CA = "src/capi.rs"
m("C16", "bug", CA, "    \"tile_rows\" => enc.tile_rows = value.parse().map_err(|_| ())?,\n    \"tile_cols\" => enc.tile_cols", "    \"tile_rows\" => enc.tile_cols = value.parse().map_err(|_| ())?,\n    \"tile_cols\" => enc.tile_rows")
m("C16", "bug", CA, "      enc.set_key_frame_interval(\n        value.parse().map_err(|_| ())?,\n        enc.max_key_frame_interval,\n      );", "      enc.min_key_frame_interval = value.parse().map_err(|_| ())?;")
m("C16", "bug", CA, "if !(2..=7).contains(&major) || minor > 3 {", "if !(2..=7).contains(&major) || minor > 4 {")
m("C16", "bug", CA, "        rav1e::EncoderStatus::LimitReached => EncoderStatus::LimitReached,\n", "        rav1e::EncoderStatus::LimitReached => EncoderStatus::EnoughData,\n")
m("C16", "bug", CA, "          opaque.cb = None;\n          opaque.opaque", "          opaque.opaque")
m("C16", "bug", CA, "    (*frame).opaque.take().map(rav1e::Opaque::new)", "    (*frame)\n      .opaque\n      .as_ref()\n      .map(|o| FrameOpaque { opaque: o.opaque, cb: o.cb })\n      .map(rav1e::Opaque::new)")
m("C16", "bug", CA, "  let t35_metadata = if frame.is_null() {", "  let t35_metadata = if frame.is_null() || maybe_opaque.is_some() {")
m("C16", "bug", CA, "  full_buf.extend_from_slice(&(buf.len() as u64).to_be_bytes());", "  full_buf.extend_from_slice(&(buf.len() as u64).to_ne_bytes());")
m("C16", "bug", CA, "  if buf_len > rest.len() {", "  if buf_len > buf.len() {")
m("C16", "bug", CA, "    8 => cfg.new_context().map(EncContext::U8),\n    _ =>", "    8 | 10 => cfg.new_context().map(EncContext::U8),\n    _ =>")
m("C16", "bug", CA, "    rav1e_frame_unref(pkt.rec);\n    rav1e_frame_unref(pkt.source);", "    rav1e_frame_unref(pkt.rec);\n    if pkt.rec.is_null() {\n      rav1e_frame_unref(pkt.source);\n    }")
m("C16", "bug", CA, "  let ret = (*ctx)\n    .ctx\n    .receive_packet()\n    .map(|packet| {\n      *pkt = Box::into_raw(Box::new(packet));\n      None\n    })\n    .unwrap_or_else(Some);\n\n  (*ctx).last_err = ret;", "  let ret = (*ctx)\n    .ctx\n    .receive_packet()\n    .map(|packet| {\n      *pkt = Box::into_raw(Box::new(packet));\n      None\n    })\n    .unwrap_or_else(Some);\n\n  if ret.is_some() {\n    (*ctx).last_err = ret;\n  }")
m("C16", "bug", CA, "    max_luminance,\n    min_luminance,\n  });", "    max_luminance: min_luminance,\n    min_luminance: max_luminance,\n  });")
m("C16", "bug", CA, "  (*ctx).ctx.rc_summary_size() as size_t + 8", "  (*ctx).ctx.rc_summary_size() as size_t")
m("C16", "bug", CA, "  if ChromaSamplePosition::from_i32(chroma_pos_val).is_none() {\n    return -1;\n  }\n", "")
m("C16", "bug", CA, "  if ret.is_some() {\n    -1\n  } else {\n    0\n  }\n}", "  if ret == Some(rav1e::EncoderStatus::Failure) {\n    -1\n  } else {\n    0\n  }\n}")
m("C16", "bug", CA, "    config_parse_bool(cfg, key, value)\n", "    config_parse_bool(cfg, key, value - 1)\n")
m("C16", "bug", CA, "    if let Some(cb) = cb {\n      cb(*opaque);\n    }", "    if let Some(cb) = cb {\n      if !opaque.is_null() && cfg!(debug_assertions) {\n        cb(*opaque);\n      }\n    }") if 0 else None
m("C16", "bug", CA, "        let source = if let Some(source) = source {\n          let source = FrameInternal::from(source);", "        let source = if let (Some(source), false) = (source, rec.is_null()) {\n          let source = FrameInternal::from(source);") if 0 else None
m("C16", "same", CA, "  let (buf, kind) = match (*ctx).ctx.rc_receive_pass_data() {\n    Some(Summary(data)) => (data, RcDataKind::Summary),\n    Some(Frame(data)) => (data, RcDataKind::Frame),\n    None => return RcDataKind::Empty,\n  };", "  let received = (*ctx).ctx.rc_receive_pass_data();\n  let (buf, kind) = if let Some(received) = received {\n    match received {\n      Summary(data) => (data, RcDataKind::Summary),\n      Frame(data) => (data, RcDataKind::Frame),\n    }\n  } else {\n    return RcDataKind::Empty;\n  };")
m("C16", "same", CA, "  let frame_internal =\n    if frame.is_null() { None } else { Some((*frame).fi.clone()) };\n  let frame_type = if frame.is_null() {\n    rav1e::FrameTypeOverride::No\n  } else {\n    (*frame).frame_type\n  };\n", "  let (frame_internal, frame_type) = if frame.is_null() {\n    (None, rav1e::FrameTypeOverride::No)\n  } else {\n    (Some((*frame).fi.clone()), (*frame).frame_type)\n  };\n")
m("C16", "same", CA, "  let ret = (*ctx)\n    .ctx\n    .receive_packet()\n    .map(|packet| {\n      *pkt = Box::into_raw(Box::new(packet));\n      None\n    })\n    .unwrap_or_else(Some);\n", "  let ret = match (*ctx).ctx.receive_packet() {\n    Ok(packet) => {\n      *pkt = Box::into_raw(Box::new(packet));\n      None\n    }\n    Err(e) => Some(e),\n  };\n")
m("C16", "same", CA, "  let (needed, maybe_buf) = decode_slice(data, len);\n\n  if maybe_buf.is_none() {\n    return needed;\n  }\n\n  let summary = rav1e::RateControlSummary::from_slice(maybe_buf.unwrap()).ok();\n  if summary.is_none() {\n    -1\n  } else {\n    (*cfg).cfg.rate_control.summary = summary;\n\n    0\n  }", "  let buf = match decode_slice(data, len) {\n    (_, Some(buf)) => buf,\n    (needed, None) => return needed,\n  };\n\n  match rav1e::RateControlSummary::from_slice(buf) {\n    Ok(s) => {\n      (*cfg).cfg.rate_control.summary = Some(s);\n      0\n    }\n    Err(_) => -1,\n  }")
m("C16", "same", CA, "    \"width\" => enc.width = value.parse().map_err(|_| ())?,\n    \"height\" => enc.height = value.parse().map_err(|_| ())?,", "    \"width\" | \"height\" => {\n      let n = match value.parse::<usize>() {\n        Ok(n) => n,\n        Err(_) => return Err(()),\n      };\n      if key == \"width\" {\n        enc.width = n;\n      } else {\n        enc.height = n;\n      }\n    }")
m("C16", "same", CA, "          let (major, minor) =\n            scan_fmt!(value, \"{}.{}\", u8, u8).map_err(|_| ())?;\n          if !(2..=7).contains(&major) || minor > 3 {\n            return Err(());\n          }\n          Some(((major - 2) << 2) + minor)", "          let (major, minor) =\n            scan_fmt!(value, \"{}.{}\", u8, u8).map_err(|_| ())?;\n          if major < 2 || major > 7 {\n            return Err(());\n          }\n          if minor >= 4 {\n            return Err(());\n          }\n          Some((major - 2) * 4 + minor)")
m("C16", "same", CA, "  if buf_len > rest.len() {", "  let have = rest.len();\n  if have < buf_len {")
m("C16", "same", CA, "    if let Some(cb) = cb {\n      cb(*opaque);\n    }", "    let ptr = *opaque;\n    match cb {\n      None => (),\n      Some(f) => f(ptr),\n    }")
m("C16", "same", CA, "  let buf = (*ctx).ctx.twopass_out();\n\n  if buf.is_none() {\n    return std::ptr::null_mut();\n  }\n\n  let v = buf.unwrap().to_vec();\n", "  let v = match (*ctx).ctx.twopass_out() {\n    None => return std::ptr::null_mut(),\n    Some(buf) => buf.to_vec(),\n  };\n")
m("C16", "bug", CA, "  if summary.is_none() {\n    -1\n  } else {\n    (*cfg).cfg.rate_control.summary = summary;\n\n    0\n  }", "  (*cfg).cfg.rate_control.summary = summary;\n  if (*cfg).cfg.rate_control.summary.is_none() {\n    -1\n  } else {\n    0\n  }")
m("C16", "bug", CA, "  input.planes[plane as usize].copy_from_raw_u8(", "  input.planes[(plane as usize).min(1)].copy_from_raw_u8(")
m("C16", "bug", CA, "    (*cfg).cfg.rate_control.summary = None;\n\n    return 0;", "    return 0;")
CM = "src/api/channel/mod.rs"
BG = "src/api/channel/by_gop.rs"
CD = "src/api/channel/data.rs"
m("C17", "bug", CM, "        let (frame, params) = f;\n        let _ = inner.send_frame(frame, params);", "        let (frame, params) = f;\n        let _ = inner.send_frame(frame, params.filter(|p| p.opaque.is_none()));")
m("C17", "bug", CM, "            Ok(p) => {\n              send_packet.send(p).unwrap();\n              true\n            }\n            Err(EncoderStatus::Encoded) => true,\n            Err(EncoderStatus::NotReady)", "            Ok(p) => {\n              if !p.data.is_empty() {\n                send_packet.send(p).unwrap();\n              }\n              true\n            }\n            Err(EncoderStatus::Encoded) => true,\n            Err(EncoderStatus::NotReady)")
m("C17", "bug", CM, "          Err(EncoderStatus::LimitReached) => break,\n          Err(EncoderStatus::Encoded) => true,", "          Err(EncoderStatus::LimitReached | EncoderStatus::NotReady) => break,\n          Err(EncoderStatus::Encoded) => true,")
m("C17", "bug", CM, "          Err(EncoderStatus::LimitReached) => break,\n          Err(EncoderStatus::Encoded) => true,", "          Err(EncoderStatus::LimitReached) => break,\n          Err(EncoderStatus::Encoded) => false,")
m("C17", "bug", CM, "      inner.limit = Some(inner.frame_count);\n      let _ = inner.send_frame(None, None);\n\n      loop {", "      if inner.limit.is_none() {\n        inner.limit = Some(inner.frame_count);\n      }\n      let _ = inner.send_frame(None, None);\n\n      loop {")
m("C17", "bug", CM, "      loop {\n        receive_rc_pass2.feed_pass_data(&mut inner).unwrap();\n", "      loop {\n        if inner.needs_more_fi_lookahead() {\n          receive_rc_pass2.feed_pass_data(&mut inner).unwrap();\n        }\n")
m("C17", "bug", CM, "    while inner.rc_state.twopass_in_frames_needed() > 0\n      && !inner.done_processing()\n    {", "    if inner.rc_state.twopass_in_frames_needed() > 0\n      && !inner.done_processing()\n    {")
m("C17", "bug", CM, "      send_rc_pass1.send_pass_summary(&mut inner.rc_state);\n    };", "      if inner.frame_count > 1 {\n        send_rc_pass1.send_pass_summary(&mut inner.rc_state);\n      }\n    };")
m("C17", "bug", CM, "{ frame_limit.min(1) }", "{ frame_limit.max(1) }")
m("C17", "bug", CD, "      let r = self.sender.try_send(frame.into()).map_err(TrySendError::from);\n      if r.is_ok() {\n        self.count += 1;\n      }", "      let r = self.sender.try_send(frame.into()).map_err(TrySendError::from);\n      self.count += 1;")
m("C17", "bug", CD, "    if self.limit <= self.count {\n      Err(SendError(frame.into()))", "    if self.limit < self.count {\n      Err(SendError(frame.into()))")
m("C17", "bug", BG, "        if end_gop {\n          sg_send = workers.get_worker().unwrap();", "        if end_gop || sg_send.len() > 64 {\n          sg_send = workers.get_worker().unwrap();")
m("C17", "bug", BG, "      self.count += 1;\n\n      s_send", "      if self.recv_workers.is_empty() {\n        self.count += 1;\n      }\n\n      s_send")
m("C17", "bug", BG, "        last_idx += 1;\n      }\n    }\n", "      }\n      last_idx += 1;\n    }\n")
m("C17", "bug", BG, "      while let Some(recv) = pending.remove(&last_idx) {\n        for mut p in recv {\n          // patch up the packet_index\n          p.input_frameno = packet_index;", "      while let Some(recv) = pending.remove(&last_idx) {\n        for mut p in recv {\n          // patch up the packet_index\n          p.input_frameno += packet_index;")
m("C17", "bug", BG, "    let mut packet_index = 0;\n    for (idx, recv) in pool.recv_reassemble.iter() {", "    for (idx, recv) in pool.recv_reassemble.iter() {\n      let mut packet_index = 0;")if 0 else None
m("C17", "bug", BG, "      if !lookahead.is_empty() {\n        let _ = send", "      if lookahead.len() > 1 {\n        let _ = send")
m("C17", "bug", BG, "          lookahead = rem;\n          lookahead_params = rem_params;\n        }\n      }\n\n      while", "          lookahead = rem;\n          lookahead_params = rem_params;\n          if end_gop {\n            lookahead_params.rotate_left(0);\n            lookahead = Vec::new();\n          }\n        }\n      }\n\n      while")
m("C17", "bug", BG, "                    Err(EncoderStatus::Encoded) => {}\n                    _ => todo!(\"Error management {:?}\", r),\n                  }\n                }\n", "                    Err(EncoderStatus::Encoded) => break,\n                    _ => todo!(\"Error management {:?}\", r),\n                  }\n                }\n") if 0 else None
m("C17", "bug", BG, "                Err(EncoderStatus::LimitReached) => break,\n                Err(EncoderStatus::Encoded) => {}", "                Err(EncoderStatus::LimitReached) => break,\n                Err(EncoderStatus::Encoded) => break,")
m("C17", "bug", BG, "      Some((self.pyramid_size + 2, new_gop))", "      Some((self.pyramid_size + 2, false))")
m("C17", "bug", BG, "      let frames = self.frames + 1;\n", "      let frames = self.frames.max(1);\n")
m("C17", "bug", BG, "let _ = inner.send_frame(Some(f), params);", "let _ = inner.send_frame(Some(f), params.filter(|_| !s.end_gop));")
m("C17", "bug", BG, "          let rem_params = lookahead_params.split_off(split_pos);\n          let _ = send.send(SubGop {\n            frames: lookahead,\n            params: lookahead_params,\n            end_gop,\n          });\n\n          lookahead = rem;\n          lookahead_params = rem_params;\n        }\n      }\n\n      if", "          let rem_params = lookahead_params.split_off(split_pos - 1);\n          let _ = send.send(SubGop {\n            frames: lookahead,\n            params: lookahead_params,\n            end_gop,\n          });\n\n          lookahead = rem;\n          lookahead_params = rem_params;\n        }\n      }\n\n      if")
m("C17", "same", CM, "          let has_pass_data = match inner.receive_packet() {\n            Ok(p) => {\n              send_packet.send(p).unwrap();\n              true\n            }\n            Err(EncoderStatus::Encoded) => true,\n            Err(EncoderStatus::NotReady) => todo!(\"Error reporting\"),\n            _ => unreachable!(),\n          };\n          if has_pass_data {\n            send_rc_pass1.send_pass_data(&mut inner.rc_state);\n          }", "          match inner.receive_packet() {\n            Ok(p) => send_packet.send(p).unwrap(),\n            Err(EncoderStatus::Encoded) => {}\n            Err(EncoderStatus::NotReady) => todo!(\"Error reporting\"),\n            _ => unreachable!(),\n          }\n          send_rc_pass1.send_pass_data(&mut inner.rc_state);")
m("C17", "same", CM, "      for f in receive_frame.iter() {\n", "      while let Ok(f) = receive_frame.recv() {\n")
m("C17", "same", BG, "    while !pending.is_empty() {\n      if let Some(recv) = pending.remove(&last_idx) {\n        for mut p in recv {\n          // patch up the packet_index\n          p.input_frameno = packet_index;\n          let _ = send_packet.send(p);\n          packet_index += 1;\n        }\n      }\n      last_idx += 1;\n    }\n", "    loop {\n      if pending.is_empty() {\n        break;\n      }\n      let next = pending.remove(&last_idx);\n      last_idx += 1;\n      if let Some(recv) = next {\n        for p in recv {\n          let p = Packet { input_frameno: packet_index, ..p };\n          packet_index += 1;\n          let _ = send_packet.send(p);\n        }\n      }\n    }\n")
m("C17", "same", BG, "      for sb in r.iter() {\n        let end_gop = sb.end_gop;\n        let _ = sg_send.send(sb);\n\n        if end_gop {", "      for sb in r {\n        let is_last = sb.end_gop;\n        let _ = sg_send.send(sb);\n\n        if is_last {")
m("C17", "same", BG, "    self.recv_workers.recv().ok().map(|sender| {\n      let (s_send, s_recv) = unbounded();\n      let (send, recv) = unbounded();\n\n      let _ = self.send_reassemble.send((self.count, recv));\n\n      let wl = WorkLoad { s_recv, send };\n\n      let _ = sender.send(Some(wl));\n\n      self.count += 1;\n\n      s_send\n    })", "    let sender = match self.recv_workers.recv() {\n      Ok(s) => s,\n      Err(_) => return None,\n    };\n    let (send, recv) = unbounded();\n    let (s_send, s_recv) = unbounded();\n    let idx = self.count;\n    self.count += 1;\n    let _ = sender.send(Some(WorkLoad { s_recv, send }));\n    let _ = self.send_reassemble.send((idx, recv));\n    Some(s_send)")
m("C17", "same", CD, "      let r = self.sender.send(frame.into()).map_err(SendError::from);\n      if r.is_ok() {\n        self.count += 1;\n      }\n      r", "      match self.sender.send(frame.into()) {\n        Ok(()) => {\n          self.count += 1;\n          Ok(())\n        }\n        Err(e) => Err(SendError::from(e)),\n      }")
EC = "src/ec.rs"
XE = "src/asm/x86/ec.rs"
m("C18", "bug", EC, "      if s >= 8 {\n        self.s.precarry.push((low >> c) as u16);", "      if s > 8 {\n        self.s.precarry.push((low >> c) as u16);")
m("C18", "bug", EC, "        low &= m;\n        c -= 8;\n        m >>= 8;", "        low &= m >> 1;\n        c -= 8;\n        m >>= 8;")
m("C18", "bug", EC, "      self.s.precarry.push((low >> c) as u16);\n      s = c + (d as i16) - 24;", "      self.s.precarry.push((low >> c) as u8 as u16);\n      s = c + (d as i16) - 24;")
m("C18", "bug", EC, "    if fl >= 32768 {\n      u = r;", "    if fl > 32767 && nms > 2 {\n      u = r;")
m("C18", "bug", EC, "      + EC_MIN_PROB * (nms - 1) as u32;", "      + EC_MIN_PROB * (nms - 1).min(14) as u32;")
m("C18", "bug", EC, "    let mut e = ((l + m) & !m) | (m + 1);", "    let mut e = (l + m) & !m;")
m("C18", "bug", EC, "        if s <= 0 {\n          break;", "        if s < 0 {\n          break;") if 0 else None
m("C18", "bug", EC, "      c += self.s.precarry[offs];\n      out[offs] = c as u8;\n      c >>= 8;", "      c += self.s.precarry[offs];\n      out[offs] = c as u8;\n      c = (c >> 8) & 1 & (offs as u16 | 1) & !(c >> 9);") if 0 else None
m("C18", "bug", EC, "      c >>= 8;\n    }\n\n    out", "      c = (c > 256) as u16;\n    }\n\n    out")
m("C18", "bug", EC, "    self.rng = 0x8000;\n    self.cnt = -9;\n    self.s.storage.truncate(0);", "    self.cnt = -9;\n    self.s.storage.truncate(0);") 
m("C18", "bug", EC, "    self.s.storage.truncate(0);\n    self.s.bits = 0;", "    self.s.bits = 0;")
m("C18", "bug", EC, "    for &(fl, fh, nms) in &self.s.storage {\n      dest.store(fl, fh, nms);", "    for &(fl, fh, nms) in &self.s.storage {\n      if fl == fh {\n        continue;\n      }\n      dest.store(fl, fh, nms);")
m("C18", "bug", EC, "    self.s.storage.push((fl, fh, nms));", "    if d > 0 {\n      self.s.storage.push((fl, fh, nms));\n    }")
m("C18", "bug", EC, "    let nms = cdf.len() - s;\n", "    let nms = (cdf.len() - s).max(2);\n")
m("C18", "bug", EC, "    for bit in (0..bits).rev() {\n      self.bit((1 & (s >> bit)) as u16);", "    for bit in 0..bits {\n      self.bit((1 & (s >> bit)) as u16);")
m("C18", "bug", EC, "    let cdf = log.push(fc, cdf);\n    self.symbol(s, cdf);\n\n    update_cdf(cdf, s);", "    let cdf = log.push(fc, cdf);\n    update_cdf(cdf, s);\n    self.symbol(s, cdf);")
m("C18", "bug", EC, "    for _ in 0..length - 1 {\n      self.bit(0);", "    for _ in 0..(length - 1).min(15) {\n      self.bit(0);")
m("C18", "bug", EC, "        self.literal(l - 1, m + ((v - m) >> 1));\n        self.literal(1, (v - m) & 1);", "        self.literal(l - 1, m + ((v - m) >> 1));\n        self.literal(1, v & 1);")
m("C18", "bug", EC, "      let m = (1 << l) - n;\n      if v < m {\n        self.literal(l - 1, v);", "      let m = (1 << l) - n;\n      if v <= m {\n        self.literal(l - 1, v);")
m("C18", "bug", EC, "      if n <= mk + 3 * a {\n        self.write_quniform(n - mk, v - mk);", "      if n <= mk + 4 * a {\n        self.write_quniform(n - mk, v - mk);")
m("C18", "bug", EC, "      if n <= mk + 3 * a {\n        return self.write_quniform(n - mk, v - mk);", "      if n <= mk + 4 * a {\n        return self.write_quniform(n - mk, v - mk);")
m("C18", "bug", EC, "    if (r << 1) <= n {\n      self.write_subexp(n, k, Self::recenter(r, v));", "    if (r << 1) < n {\n      self.write_subexp(n, k, Self::recenter(r, v));")
m("C18", "bug", EC, "    if v > (r << 1) {\n      v\n    } else if v >= r {\n      (v - r) << 1\n    } else {\n      ((r - v) << 1) - 1\n    }\n  }\n\n  #[cfg", "    if v >= (r << 1) {\n      v\n    } else if v >= r {\n      (v - r) << 1\n    } else {\n      ((r - v) << 1) - 1\n    }\n  }\n\n  #[cfg") if 0 else None
m("C18", "bug", EC, "    } else if v >= r {\n      (v - r) << 1\n    } else {\n      ((r - v) << 1) - 1\n    }\n  }\n\n  #[cfg", "    } else if v > r {\n      (v - r) << 1\n    } else {\n      ((r - v) << 1).saturating_sub(1)\n    }\n  }\n\n  #[cfg") if 0 else None
m("C18", "bug", EC, "    let mut rate = 3 + (nsymbs >> 1).min(2);", "    let mut rate = 3 + (nsymbs >> 2).min(2);")
m("C18", "bug", EC, "      *count += 1 - (*count >> 5);", "      *count += 1 - (*count >> 4 & 1);") 
m("C18", "bug", EC, "cdf[..nsymbs - 1].iter_mut().enumerate().take(CDF_LEN_MAX - 1)", "cdf[..nsymbs - 1].iter_mut().enumerate().take(CDF_LEN_MAX - 2)")
m("C18", "bug", XE, "  let rate = 5 + (cdf[nsymbs - 1] >> 4) as usize;", "  let rate = 5 + (cdf[nsymbs - 1] > 15) as usize;")
m("C18", "bug", XE, "  if cdf.len() == 4 {", "  if cdf.len() == 4 || cdf.len() == 5 {")
m("C18", "bug", XE, "(cdf[nsymbs - 1] < 32)", "(cdf[nsymbs - 1] < 31)")
m("C18", "bug", XE, "  let fixed_if_lt_val = _mm_sub_epi16(shifted, index_lt_val);", "  let fixed_if_lt_val = shifted;")
m("C18", "bug", EC, "      k,\n      r + (n - 1) as i16,\n      v + (n - 1) as i16,", "      k,\n      r + n as i16,\n      v + n as i16,")
m("C18", "bug", EC, "      (n << 1) - 1,\n", "      n << 1,\n")
m("C18", "bug", EC, "WriterBase { rng: 0x8000, cnt: -9, fake_bits_frac: 0, s: storage }", "WriterBase { rng: 0x8000, cnt: -8, fake_bits_frac: 0, s: storage }")
m("C18", "same", EC, "      c += 16;\n      let mut m = (1 << c) - 1;\n      if s >= 8 {\n        self.s.precarry.push((low >> c) as u16);\n        low &= m;\n        c -= 8;\n        m >>= 8;\n      }\n      self.s.precarry.push((low >> c) as u16);\n      s = c + (d as i16) - 24;\n      low &= m;", "      let mut shift = c + 16;\n      if s > 7 {\n        self.s.precarry.push((low >> shift) as u16);\n        low &= (1 << shift) - 1;\n        shift -= 8;\n      }\n      self.s.precarry.push((low >> shift) as u16);\n      low &= (1 << shift) - 1;\n      c = shift;\n      s = c - 24 + (d as i16);")
m("C18", "same", EC, "    let mut offs = self.s.precarry.len();\n    // dynamic allocation: grows during encode\n    let mut out = vec![0_u8; offs];\n    while offs > 0 {\n      offs -= 1;\n      c += self.s.precarry[offs];\n      out[offs] = c as u8;\n      c >>= 8;\n    }", "    let len = self.s.precarry.len();\n    let mut out = vec![0_u8; len];\n    for offs in (0..len).rev() {\n      c += self.s.precarry[offs];\n      out[offs] = (c & 255) as u8;\n      c >>= 8;\n    }")
m("C18", "same", EC, "    for &(fl, fh, nms) in &self.s.storage {\n      dest.store(fl, fh, nms);\n    }", "    for token in self.s.storage.iter() {\n      dest.store(token.0, token.1, token.2);\n    }")
m("C18", "same", EC, "    let x = level + 1;\n    let length = 32 - x.leading_zeros();\n\n    for _ in 0..length - 1 {\n      self.bit(0);\n    }", "    let x = level + 1;\n    let length = u32::BITS - x.leading_zeros();\n    let mut zeros = length - 1;\n    while zeros > 0 {\n      self.bit(0);\n      zeros -= 1;\n    }")
m("C18", "same", EC, "      if i as u32 >= val {\n        *v -= *v >> rate;\n      } else {\n        *v += (32768 - *v) >> rate;\n      }", "      let adj = if (i as u32) < val {\n        *v + ((32768 - *v) >> rate)\n      } else {\n        *v - (*v >> rate)\n      };\n      *v = adj;")
m("C18", "same", EC, "    let s = s as usize;\n    debug_assert!(s < cdf.len());", "    let s = s as usize;\n    debug_assert!(cdf.len() > s);")
m("C18", "same", EC, "    if (r << 1) <= n {\n      self.write_subexp(n, k, Self::recenter(r, v));\n    } else {\n      self.write_subexp(n, k, Self::recenter(n - 1 - r, n - 1 - v));\n    }", "    let x = if r * 2 > n {\n      Self::recenter(n - 1 - r, n - 1 - v)\n    } else {\n      Self::recenter(r, v)\n    };\n    self.write_subexp(n, k, x);")
m("C18", "same", EC, "      let l = 32 - n.leading_zeros() as u8;\n      let m = (1 << l) - n;\n      if v < m {\n        self.literal(l - 1, v);\n      } else {\n        self.literal(l - 1, m + ((v - m) >> 1));\n        self.literal(1, (v - m) & 1);\n      }", "      let l = 32 - n.leading_zeros() as u8;\n      let m = (1 << l) - n;\n      if v >= m {\n        let d = v - m;\n        self.literal(l - 1, m + d / 2);\n        self.bit((d & 1) as u16);\n      } else {\n        self.literal(l - 1, v);\n      }")
m("C18", "same", EC, "    self.bool(bit == 1, 16384);", "    self.bool(bit != 0, 16384);")
m("C18", "same", EC, "    self.s.low = low << d;\n    self.rng = r << d;\n    self.cnt = s;", "    self.cnt = s;\n    self.rng = r << d;\n    self.s.low = low << d;")
# ---- C19
RD = "src/rdo.rs"
EN = "src/encoder.rs"
CC = "src/context/cdf_context.rs"
BU = "src/context/block_unit.rs"
m("C19", "bug", RD, "          zero_distortion = is_zero_dist;\n        }\n\n        cw.rollback(cw_checkpoint);", "          zero_distortion = is_zero_dist;\n          if !zero_distortion { cw.rollback(cw_checkpoint); }\n          continue;\n        }\n\n        cw.rollback(cw_checkpoint);")
m("C19", "bug", RD, "    cw.rollback(&cw_checkpoint);\n    if fi.sequence.chroma_sampling != ChromaSampling::Cs400 {", "    if fi.sequence.chroma_sampling != ChromaSampling::Cs400 {\n      cw.rollback(&cw_checkpoint);")
m("C19", "bug", RD, "          best.pred_cfl_params = cfl;\n        }\n\n        cw.rollback(&cw_checkpoint);", "          best.pred_cfl_params = cfl;\n        }\n\n        if rate > 0 {\n          cw.rollback(&cw_checkpoint);\n        }")
m("C19", "bug", RD, "    cw.rollback(cw_checkpoint.as_ref().unwrap());\n", "    if rate > 0 {\n      cw.rollback(cw_checkpoint.as_ref().unwrap());\n    }\n")
m("C19", "bug", RD, "    cw.rollback(&cw_checkpoint);\n    w_pre_cdef.rollback(&w_pre_checkpoint);\n    w_post_cdef.rollback(&w_post_checkpoint);\n  }", "    cw.rollback(&cw_checkpoint);\n    w_pre_cdef.rollback(&w_pre_checkpoint);\n    if cw.bc.cdef_coded {\n      w_post_cdef.rollback(&w_post_checkpoint);\n    }\n  }")
m("C19", "bug", RD, "    w_pre_cdef.rollback(&w_pre_checkpoint);\n    w_post_cdef.rollback(&w_post_checkpoint);\n  }", "    w_pre_cdef.rollback(&w_pre_checkpoint);\n    w_post_cdef.rollback(&w_pre_checkpoint);\n  }")
m("C19", "bug", EN, "      w_pre_cdef.rollback(&w_pre_checkpoint);\n      w_post_cdef.rollback(&w_post_checkpoint);\n\n      let subsize", "      w_pre_cdef.rollback(&w_pre_checkpoint);\n      if cw.bc.cdef_coded {\n        w_post_cdef.rollback(&w_post_checkpoint);\n      }\n\n      let subsize")
m("C19", "bug", EN, "      cw.rollback(&cw_checkpoint);\n      w_pre_cdef.rollback(&w_pre_checkpoint);\n      w_post_cdef.rollback(&w_post_checkpoint);\n\n      let subsize", "      if rd_cost != 0.0 {\n        cw.rollback(&cw_checkpoint);\n        w_pre_cdef.rollback(&w_pre_checkpoint);\n        w_post_cdef.rollback(&w_post_checkpoint);\n      }\n\n      let subsize")
m("C19", "bug", EC, "    self.rng = checkpoint.rng;\n    self.s.bits = checkpoint.stream_size;\n  }", "    self.s.bits = checkpoint.stream_size;\n  }")
m("C19", "bug", EC, "    self.s.bits = checkpoint.stream_size;\n    self.s.storage.truncate(checkpoint.backend_var);", "    self.s.bits = checkpoint.stream_size;\n    self.s.storage.truncate(checkpoint.stream_size);")
m("C19", "bug", EC, "    self.rng = checkpoint.rng;\n    self.cnt = checkpoint.cnt;\n    self.s.low =", "    self.rng = checkpoint.rng;\n    self.s.low =")
m("C19", "bug", EC, "    self.s.low = checkpoint.backend_var as ec_window;", "    self.s.low = checkpoint.backend_var as u16 as ec_window;")
m("C19", "bug", CC, "    self.small.rollback(fc, checkpoint.small);\n    self.large.rollback(fc, checkpoint.large);", "    self.small.rollback(fc, checkpoint.small);\n    self.large.rollback(fc, checkpoint.small);")
m("C19", "bug", CC, "    if CDF_LEN <= CDF_LEN_SMALL {\n      self.small.push", "    if CDF_LEN <= CDF_LEN_SMALL + 1 {\n      self.small.push")
m("C19", "bug", CC, "      while len > checkpoint {", "      while len > checkpoint + 1 {")
m("C19", "bug", CC, "      if CDF_LEN_MAX_PLUS_1 > capacity.wrapping_sub(new_len) {\n        self.data.reserve(CDF_LEN_MAX_PLUS_1);", "      if CDF_LEN_MAX_PLUS_1 > capacity {\n        self.data.reserve(CDF_LEN_MAX_PLUS_1);")
m("C19", "bug", BU, "  pub classes_cdf: [u16; MV_CLASSES],\n  // MV_CLASSES + 5 == 16; pad the last CDF for rollback.\n  padding: [u16; 5],", "  padding: [u16; 5],\n  pub classes_cdf: [u16; MV_CLASSES],") 
m("C19", "bug", BU, "    self.left_tx_context = checkpoint.left_tx_context;\n    let num_planes", "    let num_planes")
m("C19", "bug", BU, "    self.cdef_coded = checkpoint.cdef_coded;\n    self.above_part", "    self.above_part")
m("C19", "bug", BU, "    let num_planes =\n      if checkpoint.chroma_sampling == ChromaSampling::Cs400 { 1 } else { 3 };", "    let num_planes =\n      if checkpoint.chroma_sampling == ChromaSampling::Cs444 { 3 } else { 2 };")
m("C19", "bug", BU, "      let xdec = (p > 0 && checkpoint.chroma_sampling != ChromaSampling::Cs444)\n        as usize;", "      let xdec = (p > 0 && checkpoint.chroma_sampling == ChromaSampling::Cs420)\n        as usize;")
m("C19", "bug", CC, "    self.fc_log.rollback(self.fc, &checkpoint.fc);\n    self.bc.rollback", "    self.bc.rollback")
m("C19", "same", EN, "      cw.rollback(&cw_checkpoint);\n      w_pre_cdef.rollback(&w_pre_checkpoint);\n      w_post_cdef.rollback(&w_post_checkpoint);\n\n      let subsize", "      w_post_cdef.rollback(&w_post_checkpoint);\n      w_pre_cdef.rollback(&w_pre_checkpoint);\n      cw.rollback(&cw_checkpoint);\n\n      let subsize")
m("C19", "same", RD, "    cw.rollback(&cw_checkpoint);\n    w_pre_cdef.rollback(&w_pre_checkpoint);\n    w_post_cdef.rollback(&w_post_checkpoint);\n  }", "    restore(cw, &cw_checkpoint, w_pre_cdef, &w_pre_checkpoint, w_post_cdef, &w_post_checkpoint);\n  }", "/// RDO-based single level partitioning decision\n", "fn restore<W: Writer>(cw: &mut ContextWriter, c: &ContextWriterCheckpoint, a: &mut W, ac: &crate::ec::WriterCheckpoint, b: &mut W, bc: &crate::ec::WriterCheckpoint) {\n  cw.rollback(c);\n  a.rollback(ac);\n  b.rollback(bc);\n}\n\n/// RDO-based single level partitioning decision\n")
m("C19", "same", BU, "    self.left_tx_context = checkpoint.left_tx_context;\n    let num_planes =\n      if checkpoint.chroma_sampling == ChromaSampling::Cs400 { 1 } else { 3 };", "    self.left_tx_context.copy_from_slice(&checkpoint.left_tx_context);\n    let num_planes =\n      if checkpoint.chroma_sampling != ChromaSampling::Cs400 { 3 } else { 1 };")
m("C19", "same", CC, "      while len > checkpoint {\n        len -= 1;\n        src = src.sub(1);\n        let src = src as *mut u16;", "      while checkpoint < len {\n        src = src.sub(1);\n        len -= 1;\n        let src = src as *mut u16;")
m("C19", "same", CC, "    if CDF_LEN <= CDF_LEN_SMALL {\n      self.small.push(fc, cdf)\n    } else {\n      self.large.push(fc, cdf)\n    }", "    if CDF_LEN > CDF_LEN_SMALL {\n      return self.large.push(fc, cdf);\n    }\n    self.small.push(fc, cdf)")
m("C19", "same", EC, "    self.rng = checkpoint.rng;\n    self.cnt = checkpoint.cnt;\n    self.s.low =", "    let WriterCheckpoint { rng, cnt, .. } = *checkpoint;\n    self.cnt = cnt;\n    self.rng = rng;\n    self.s.low =")
# ---- C20
EM = "src/entropymode.rs"
MC = "src/mc.rs"
QT = "src/quantize/tables.rs"
m("C20", "bug", CC, "      21..=60 => 1,\n      61..=120 => 2,", "      21..=59 => 1,\n      60..=120 => 2,")
m("C20", "bug", CC, "    reset_2d!(self.skip_cdfs);\n", "")
m("C20", "bug", CC, "    for i in 0..2 {\n      reset_1d!(self.nmv_context.comps[i].classes_cdf);", "    for i in 0..1 {\n      reset_1d!(self.nmv_context.comps[i].classes_cdf);")
m("C20", "bug", CC, "        let r = $field.last_mut().unwrap();", "        let r = $field.first_mut().unwrap();")
m("C20", "bug", "src/scan_order.rs", "\t\t// TX_16X8\n\t\tSCAN_ORDER { scan: &default_scan_16x8, iscan: &default_iscan_16x8 },", "\t\t// TX_16X8\n\t\tSCAN_ORDER { scan: &mcol_scan_16x8, iscan: &mcol_iscan_16x8 },")
m("C20", "bug", "src/levels.rs", "  6144, // 4.1\n", "  4096, // 4.1\n")
m("C20", "bug", MC, "|| length > 4 {", "|| length >= 4 {")
m("C20", "bug", "src/predict.rs", "      14 => 273,", "      14 => 272,")
m("C20", "bug", "src/lrf.rs", "[70, 1295]", "[70, 1294]")
m("C20", "bug", CC, "      kf_y_cdf: default_kf_y_mode_cdf,\n      y_mode_cdf: default_if_y_mode_cdf,", "      kf_y_cdf: default_kf_y_mode_cdf,\n      y_mode_cdf: default_kf_y_mode_cdf[0][0..4].try_into().unwrap(),")
m("C20", "same", CC, "    let qctx = match quantizer {\n      0..=20 => 0,\n      21..=60 => 1,\n      61..=120 => 2,\n      _ => 3,\n    };", "    let qctx = usize::from(quantizer > 20) + usize::from(quantizer > 60) + usize::from(quantizer > 120);")
m("C20", "same", CC, "        let r = $field.last_mut().unwrap();\n        *r = 0;", "        let n = $field.len() - 1;\n        $field[n] = 0;")
m("C20", "same", MC, "    SUBPEL_FILTERS[filter_idx][frac as usize]\n", "    let bank = &SUBPEL_FILTERS[filter_idx];\n    bank[frac as usize]\n")

# C21: block syntax
m("C21", "bug", EN, "  cw.write_skip(w, tile_bo, skip);\n  if ts.segmentation.enabled\n    && ts.segmentation.update_map\n    && !ts.segmentation.preskip\n  {\n    cw.write_segmentation(\n      w,\n      tile_bo,\n      bsize,\n      skip,", "  cw.write_skip(w, tile_bo, skip);\n  if ts.segmentation.enabled\n    && ts.segmentation.update_map\n    && !ts.segmentation.preskip\n  {\n    cw.write_segmentation(\n      w,\n      tile_bo,\n      bsize,\n      false,")
m("C21", "bug", EN, "    && ts.segmentation.update_map\n    && !ts.segmentation.preskip\n", "    && !ts.segmentation.preskip\n")
m("C21", "bug", EN, "  if !skip && seq.enable_cdef {\n    cw.bc.cdef_coded = true;\n  }", "  if !skip && seq.enable_cdef && bsize < BlockSize::BLOCK_64X64 {\n    cw.bc.cdef_coded = true;\n  }")
m("C21", "bug", EN, "    && (bsize < sb_size || !skip)\n", "    && !skip\n")
m("C21", "bug", EN, "          if num_mv_found > idx + 1 {\n            let drl_mode = ref_mv_idx > idx;\n            let ctx: usize = (mv_stack[idx].weight < REF_CAT_LEVEL) as usize\n              + (mv_stack[idx + 1].weight < REF_CAT_LEVEL) as usize;\n            cw.write_drl_mode(w, drl_mode, ctx);", "          if num_mv_found > idx + 1 {\n            let drl_mode = ref_mv_idx > idx;\n            let ctx: usize = (mv_stack[idx].weight < REF_CAT_LEVEL) as usize\n              + (mv_stack[idx].weight < REF_CAT_LEVEL) as usize;\n            cw.write_drl_mode(w, drl_mode, ctx);")
m("C21", "bug", EN, "        for idx in 1..3 {\n          if num_mv_found > idx + 1 {", "        for idx in 1..3 {\n          if num_mv_found > idx + 1 || idx == 2 {")
m("C21", "bug", EN, "            let drl_mode = ref_mv_idx > idx;\n            let ctx: usize = (mv_stack[idx].weight < REF_CAT_LEVEL) as usize\n              + (mv_stack[idx + 1].weight < REF_CAT_LEVEL) as usize;\n\n            cw.write_drl_mode(w, drl_mode, ctx);\n            if !drl_mode {\n              break;\n            }", "            let drl_mode = ref_mv_idx > idx;\n            let ctx: usize = (mv_stack[idx].weight < REF_CAT_LEVEL) as usize\n              + (mv_stack[idx + 1].weight < REF_CAT_LEVEL) as usize;\n\n            cw.write_drl_mode(w, drl_mode, ctx);")
m("C21", "bug", EN, "        || luma_mode == PredictionMode::NEW_NEARESTMV\n      {\n        cw.write_mv(", "      {\n        cw.write_mv(")
m("C21", "bug", EN, "      if chroma_mode.is_directional() && bsize >= BlockSize::BLOCK_8X8 {", "      if chroma_mode.is_directional() && bsize >= BlockSize::BLOCK_4X8 {")
m("C21", "bug", EN, "      && luma_mode == PredictionMode::DC_PRED\n      && bsize.width() <= 32\n      && bsize.height() <= 32", "      && luma_mode == PredictionMode::DC_PRED\n      && bsize.width() <= 32\n      && bsize.height() <= 64")
m("C21", "bug", EN, "    if bsize > BlockSize::BLOCK_4X4 && (!is_inter || !skip) {\n      if !is_inter {", "    if bsize > BlockSize::BLOCK_4X4 && !skip {\n      if !is_inter {")
m("C21", "bug", EN, "      cw.bc.update_tx_size_context(tile_bo, bsize, tx_size, is_inter && skip);", "      cw.bc.update_tx_size_context(tile_bo, bsize, tx_size, is_inter);")
m("C21", "bug", EN, "        let max_tx_size = max_txsize_rect_lookup[bsize as usize];\n        debug_assert!(max_tx_size.block_size() <= BlockSize::BLOCK_64X64);\n\n        //TODO", "        let max_tx_size = tx_size;\n        debug_assert!(max_tx_size.block_size() <= BlockSize::BLOCK_64X64);\n\n        //TODO")
m("C21", "bug", EN, "  cw.bc.blocks.set_ref_frames(tile_bo, bsize, ref_frames);\n  cw.bc.blocks.set_motion_vectors(tile_bo, bsize, mvs);\n\n  //write_q_deltas();", "  cw.bc.blocks.set_ref_frames(tile_bo, bsize, ref_frames);\n  if !skip {\n    cw.bc.blocks.set_motion_vectors(tile_bo, bsize, mvs);\n  }\n\n  //write_q_deltas();")
m("C21", "bug", EN, "  let uv_tx_type = if uv_tx_size.width() >= 32 || uv_tx_size.height() >= 32 {", "  let uv_tx_type = if uv_tx_size.width() >= 32 && uv_tx_size.height() >= 32 {")
m("C21", "bug", EN, "            - ((bw * tx_size.width_mi() == 1) as usize) * xdec,", "            - ((bw == 1) as usize) * xdec,")
m("C21", "bug", EN, "            - (max_tx_size.height_mi() == 1) as usize * ydec,", "            - (uv_tx_size.height_mi() == 1) as usize * ydec,")
m("C21", "bug", EN, "      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + bx * tx_size.width_mi(),\n        y: tile_bo.0.y + by * tx_size.height_mi(),\n      });\n      if tx_bo.0.x >= ts.mi_width || tx_bo.0.y >= ts.mi_height {\n        continue;\n      }\n\n", "      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + by * tx_size.width_mi(),\n        y: tile_bo.0.y + bx * tx_size.height_mi(),\n      });\n      if tx_bo.0.x >= ts.mi_width || tx_bo.0.y >= ts.mi_height {\n        continue;\n      }\n\n")
m("C21", "bug", EN, "    if cdef_coded { w_post_cdef } else { w_pre_cdef },\n    mode_luma,\n    mode_chroma,\n    mode_decision.angle_delta,", "    w_post_cdef,\n    mode_luma,\n    mode_chroma,\n    mode_decision.angle_delta,")
m("C21", "bug", EN, "  let (tx_size, tx_type) = if !mode_decision.skip && !mode_decision.has_coeff {\n    skip = true;\n", "  let (tx_size, tx_type) = if !mode_decision.skip && !mode_decision.has_coeff {\n    skip = bsize > BlockSize::BLOCK_8X8;\n")
m("C21", "bug", EN, "              mode_luma = *m;\n            }\n", "              mode_luma = *m;\n              break;\n            }\n            if c.this_mv.row == mvs[0].row { mode_luma = *m; }\n")
m("C21", "bug", EN, "            } else if mv_stack.len() == 1 {\n              PredictionMode::NEAR0MV", "            } else if mv_stack.len() <= 2 {\n              PredictionMode::NEAR0MV")
m("C21", "bug", EN, "          } else if match1 {\n            PredictionMode::NEW_NEARESTMV", "          } else if match1 || match3 {\n            PredictionMode::NEW_NEARESTMV")
m("C21", "bug", EN, "          y: tile_bo.0.y,\n          }),\n          TileBlockOffset(BlockOffset {\n            x: tile_bo.0.x,\n            y: tile_bo.0.y + hbsh,", "          y: tile_bo.0.y + hbsh,\n          }),\n          TileBlockOffset(BlockOffset {\n            x: tile_bo.0.x + hbsw,\n            y: tile_bo.0.y,")
m("C21", "bug", EN, "      if has_cols {\n        partition_types.push(PartitionType::PARTITION_HORZ);", "      if has_rows {\n        partition_types.push(PartitionType::PARTITION_HORZ);")
m("C21", "bug", EN, "        if partition != PartitionType::PARTITION_SPLIT {\n          assert!(!child_modes.is_empty());\n          rdo_output.part_modes = child_modes;\n        }", "        if rdo_output.part_modes.is_empty() || partition == PartitionType::PARTITION_HORZ {\n          rdo_output.part_modes = child_modes;\n        }")
m("C21", "bug", EN, "    cw.bc.update_partition_context(\n      tile_bo,\n      bsize.subsize(best_partition).unwrap(),\n      bsize,\n    );", "    if !must_split {\n      cw.bc.update_partition_context(\n        tile_bo,\n        bsize.subsize(best_partition).unwrap(),\n        bsize,\n      );\n    }")
m("C21", "bug", EN, "      || partition != PartitionType::PARTITION_SPLIT)\n  {\n    cw.bc.update_partition_context(tile_bo, subsize, bsize);", "      || partition == PartitionType::PARTITION_NONE)\n  {\n    cw.bc.update_partition_context(tile_bo, subsize, bsize);")
m("C21", "bug", EN, "      cw.bc.code_deltas = fi.delta_q_present;", "      cw.bc.code_deltas = fi.delta_q_present && sbx == 0;")
m("C21", "bug", EN, "      cw.bc.cdef_coded = false;\n      cw.bc.code_deltas", "      cw.bc.code_deltas")
m("C21", "bug", EN, "        sbs_qe.cdef_coded = cw.bc.cdef_coded;\n", "        sbs_qe.cdef_coded = cw.bc.cdef_coded && fi.cdef_bits > 0;\n")
m("C21", "bug", EN, "        if qe.cdef_coded {\n          let cdef_index = cw.bc.blocks.get_cdef(qe.sbo);\n          cw.write_cdef(w, cdef_index, fi.cdef_bits);\n          // Code queued symbols that come after the CDEF index\n          qe.w_post_cdef.replay(w);\n        }", "        if qe.cdef_coded {\n          // Code queued symbols that come after the CDEF index\n          qe.w_post_cdef.replay(w);\n          let cdef_index = cw.bc.blocks.get_cdef(qe.sbo);\n          cw.write_cdef(w, cdef_index, fi.cdef_bits);\n        }")
m("C21", "bug", EN, "              last_lru_coded[pli] = qe.lru_index[pli];\n              cw.write_lrf(w, &mut ts.restoration, qe.sbo, pli);", "              cw.write_lrf(w, &mut ts.restoration, qe.sbo, pli);")
m("C21", "bug", EN, "    cw.bc.reset_left_contexts(planes);\n", "    cw.bc.reset_left_contexts(1);\n")
m("C21", "same", EN, "  cw.bc.cdef_coded\n}\n", "  let coded = cw.bc.cdef_coded;\n  coded\n}\n")
m("C21", "same", EN, "  let is_inter = !luma_mode.is_intra();\n  if is_inter {\n    assert!(luma_mode == chroma_mode);\n  };\n  let sb_size", "  let is_inter = luma_mode >= PredictionMode::NEARESTMV;\n  assert!(!is_inter || luma_mode == chroma_mode);\n  let sb_size")
m("C21", "same", EN, "      let mv_precision = if fi.force_integer_mv != 0 {\n        MvSubpelPrecision::MV_SUBPEL_NONE\n      } else if fi.allow_high_precision_mv {\n        MvSubpelPrecision::MV_SUBPEL_HIGH_PRECISION\n      } else {\n        MvSubpelPrecision::MV_SUBPEL_LOW_PRECISION\n      };\n\n      if luma_mode == PredictionMode::NEWMV\n        || luma_mode == PredictionMode::NEW_NEWMV\n        || luma_mode == PredictionMode::NEW_NEARESTMV\n      {\n        cw.write_mv(w, mvs[0], ref_mvs[0], mv_precision);\n      }", "      let mv_precision = match (fi.force_integer_mv != 0, fi.allow_high_precision_mv) {\n        (true, _) => MvSubpelPrecision::MV_SUBPEL_NONE,\n        (false, true) => MvSubpelPrecision::MV_SUBPEL_HIGH_PRECISION,\n        (false, false) => MvSubpelPrecision::MV_SUBPEL_LOW_PRECISION,\n      };\n\n      if matches!(luma_mode, PredictionMode::NEWMV | PredictionMode::NEW_NEWMV | PredictionMode::NEW_NEARESTMV)\n      {\n        cw.write_mv(w, mvs[0], ref_mvs[0], mv_precision);\n      }")
m("C21", "same", EN, "        let partitions = get_sub_partitions(&four_partitions, partition);\n\n        partitions.iter().for_each(|&offset| {\n          encode_partition_topdown(\n            fi,\n            ts,\n            cw,\n            w_pre_cdef,\n            w_post_cdef,\n            subsize,\n            offset,\n            &None,\n            inter_cfg,\n            enc_stats,\n          );\n        });", "        let partitions = get_sub_partitions(&four_partitions, partition);\n\n        for &offset in partitions.iter() {\n          encode_partition_topdown(\n            fi,\n            ts,\n            cw,\n            w_pre_cdef,\n            w_post_cdef,\n            subsize,\n            offset,\n            &None,\n            inter_cfg,\n            enc_stats,\n          );\n        }")
m("C21", "same", EN, "  let mut bw_uv = (bw * tx_size.width_mi()) >> xdec;\n  let mut bh_uv = (bh * tx_size.height_mi()) >> ydec;\n\n  if bw_uv == 0 || bh_uv == 0 {\n    bw_uv = 1;\n    bh_uv = 1;\n  }\n\n  bw_uv /= uv_tx_size.width_mi();\n  bh_uv /= uv_tx_size.height_mi();", "  let bw_uv = (((bw * tx_size.width_mi()) >> xdec).max(1)) / uv_tx_size.width_mi();\n  let bh_uv = (((bh * tx_size.height_mi()) >> ydec).max(1)) / uv_tx_size.height_mi();")
m("C21", "same", EN, "      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + bx * tx_size.width_mi(),\n        y: tile_bo.0.y + by * tx_size.height_mi(),\n      });\n      if tx_bo.0.x >= ts.mi_width || tx_bo.0.y >= ts.mi_height {\n        continue;\n      }\n\n", "      let off_x = bx * tx_size.width_mi();\n      let off_y = by * tx_size.height_mi();\n      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + off_x,\n        y: tile_bo.0.y + off_y,\n      });\n\n")

# ---- C23
PR = "src/predict.rs"; QM = "src/quantize/mod.rs"; TS = "src/tiling/tile_state.rs"
ENCB = "C23"
def b23(f, o, n, *r): m("C23", "bug", f, o, n, *r)
def s23(f, o, n, *r): m("C23", "same", f, o, n, *r)
b23(EN, "      tile_partition_bo,\n      bx,\n      by,\n      bsize,\n      po,\n      tx_size,\n      bit_depth,\n      Some(mode),", "      tx_bo,\n      bx,\n      by,\n      bsize,\n      po,\n      tx_size,\n      bit_depth,\n      Some(mode),")
b23(EN, "  if eob == 0 {\n    // All zero coefficients is a no-op", "  if eob <= 1 && tx_size.area() > 1024 {\n    // All zero coefficients is a no-op")
b23(EN, "  } else if !fi.use_tx_domain_distortion || need_recon_pixel {\n    inverse", "  } else if !fi.use_tx_domain_distortion || rdo_type.needs_coeff_rate() {\n    inverse")
b23(EN, "    fi.dc_delta_q[p],\n    fi.ac_delta_q[p],\n    fi.cpu_feature_level,\n  );\n  // SAFETY: dequantize", "    fi.dc_delta_q[p],\n    fi.dc_delta_q[p],\n    fi.cpu_feature_level,\n  );\n  // SAFETY: dequantize")
b23(EN, "    fi.dc_delta_q[p],\n    fi.ac_delta_q[p],\n    fi.cpu_feature_level,\n  );\n  // SAFETY: dequantize", "    fi.dc_delta_q[p.min(1)],\n    fi.ac_delta_q[p],\n    fi.cpu_feature_level,\n  );\n  // SAFETY: dequantize")
b23(EN, "  dequantize(\n    qidx,", "  dequantize(\n    fi.base_q_idx,")
b23(EN, "  if visible_tx_w != 0 && visible_tx_h != 0 {\n    diff(\n      residual,\n      &ts.input_tile.planes[p].subregion(area),\n      &rec.subregion(area),", "  if visible_tx_w != 0 && visible_tx_h != 0 {\n    diff(\n      residual,\n      &rec.subregion(area),\n      &ts.input_tile.planes[p].subregion(area),")
b23(EN, "    let (plane_xdec, plane_ydec) = if p == 0 { (0, 0) } else { (xdec, ydec) };", "    let (plane_xdec, plane_ydec) = if p == 0 { (0, 0) } else { (xdec, xdec) };")
b23(EN, "    Some(IntraEdgeFilterParameters::new(p, above_block_info, left_block_info))", "    Some(IntraEdgeFilterParameters::new(p, left_block_info, above_block_info))")
b23(EN, "      ts.left_block_info(tile_partition_bo, plane_xdec, plane_ydec);", "      ts.left_block_info(tx_bo, plane_xdec, plane_ydec);")
b23(EN, "  let tile_rect = ts.tile_rect().decimated(xdec, ydec);\n  let area = Area::BlockRect {", "  let tile_rect = ts.tile_rect();\n  let area = Area::BlockRect {")
b23(EN, "      eob,\n      tx_size,\n      tx_type,\n      fi.sequence.bit_depth,", "      eob,\n      tx_size,\n      if skip || p == 0 { tx_type } else { TxType::DCT_DCT },\n      fi.sequence.bit_depth,")
b23(EN, "    cw.write_coeffs_lv_map(\n      w,\n      p,\n      tx_bo,\n      qcoeffs,\n      eob,", "    cw.write_coeffs_lv_map(\n      w,\n      p,\n      tx_bo,\n      qcoeffs,\n      eob.min(1024),")
b23(EN, "      bsize.subsampled_size(u_xdec, u_ydec).unwrap()\n    };\n\n    let rec", "      bsize.subsampled_size(u_xdec, u_xdec).unwrap()\n    };\n\n    let rec")
b23(EN, "      if bsize == BlockSize::BLOCK_4X4 || bsize == BlockSize::BLOCK_4X8 {\n        some_use_intra |=", "      if bsize == BlockSize::BLOCK_4X4 {\n        some_use_intra |=")
b23(EN, "          cw.bc.blocks[tile_bo.with_offset(-1, -1)].mode.is_intra();", "          cw.bc.blocks[tile_bo.with_offset(-1, 0)].mode.is_intra();")
b23(EN, "          let rf1 = cw.bc.blocks[tile_bo.with_offset(0, -1)].ref_frames;\n          let po1", "          let rf1 = cw.bc.blocks[tile_bo.with_offset(-1, -1)].ref_frames;\n          let po1")
b23(EN, "          let mv2 = cw.bc.blocks[tile_bo.with_offset(-1, 0)].mv;\n          let rf2 = cw.bc.blocks[tile_bo.with_offset(-1, 0)].ref_frames;\n          let po2", "          let mv2 = cw.bc.blocks[tile_bo.with_offset(0, -1)].mv;\n          let rf2 = cw.bc.blocks[tile_bo.with_offset(-1, 0)].ref_frames;\n          let po2")
b23(EN, "          let po3 = PlaneOffset { x: po.x + 2, y: po.y + 2 };\n          let area3", "          let po3 = PlaneOffset { x: po.x + 2, y: po.y + 2 };\n          let po2 = po3;\n          let area3")
b23(EN, "            4,\n            2,\n            rf1,\n            mv1,", "            4,\n            2,\n            ref_frames,\n            mv1,")
b23(EN, "    fi.dc_delta_q[0],\n    0,\n  );\n\n  for by in 0..bh {\n    for bx in 0..bw {\n      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + bx * tx_size.width_mi(),\n        y: tile_bo.0.y + by * tx_size.height_mi(),\n      });\n      if tx_bo.0.x >= ts.mi_width || tx_bo.0.y >= ts.mi_height {\n        continue;\n      }\n      let po", "    0,\n    0,\n  );\n\n  for by in 0..bh {\n    for bx in 0..bw {\n      let tx_bo = TileBlockOffset(BlockOffset {\n        x: tile_bo.0.x + bx * tx_size.width_mi(),\n        y: tile_bo.0.y + by * tx_size.height_mi(),\n      });\n      if tx_bo.0.x >= ts.mi_width || tx_bo.0.y >= ts.mi_height {\n        continue;\n      }\n      let po")
b23(EN, "            IntraParam::AngleDelta(angle_delta.uv)\n          },\n          rdo_type,", "            IntraParam::AngleDelta(angle_delta.y)\n          },\n          rdo_type,")
b23(EN, "    let alpha = cfl.alpha(p - 1);", "    let alpha = cfl.alpha(2 - p);")
b23(EN, "    luma_ac(&mut ac.data, ts, tile_bo, bsize, tx_size, fi)\n  } else {\n    [].as_slice()\n  };\n\n  let uv_tx_type", "    luma_ac(&mut ac.data, ts, tile_bo, bsize, uv_tx_size, fi)\n  } else {\n    [].as_slice()\n  };\n\n  let uv_tx_type")
b23(EN, "  if is_inter {\n    motion_compensate(\n      fi, ts, cw, luma_mode, ref_frames, mvs, bsize, tile_bo, false,", "  if is_inter {\n    motion_compensate(\n      fi, ts, cw, luma_mode, ref_frames, mvs, bsize, tile_bo, skip,")
b23(EN, "        bi.chroma_mode = chroma_mode;\n        bi.reference_types = ref_frames;", "        bi.chroma_mode = luma_mode;\n        bi.reference_types = ref_frames;")
b23(EN, "    for y in 0..bsize.height_mi() {\n      if tile_bo.0.y + y >= ts.mi_height {\n        continue;\n      }\n      for x in 0..bsize.width_mi() {", "    for y in 0..bsize.height_mi() {\n      if tile_bo.0.y + y >= ts.mi_height {\n        continue;\n      }\n      for x in 0..bsize.height_mi() {")
b23(EN, "    qidx = clamp((qidx as i16) + delta, 0, 255) as u8;\n  }\n  qidx", "    qidx = clamp((qidx as i16) + delta, 1, 255) as u8;\n  }\n  qidx")
b23(EN, "  let sidx = cw.bc.blocks[tile_bo].segmentation_idx as usize;\n  if ts", "  let sidx = (cw.bc.blocks[tile_bo].segmentation_idx as usize) & 3;\n  if ts")
b23(QM, "    + Into::<usize>::into(num_pixels > 1024)", "    + Into::<usize>::into(num_pixels >= 1024)")
b23(QM, "        (c * quant + ((c >> 31) & offset)) >> log_tx_scale,", "        (c * quant) >> log_tx_scale,")
b23(QM, "      let quant = if i == 0 { dc_quant } else { ac_quant };\n      r.write", "      let quant = if i == 0 && log_tx_scale == 0 { dc_quant } else { ac_quant };\n      r.write")
b23(QM, "    let ac_quant = ac_q(qindex, ac_delta_q, bit_depth).get() as i32;\n\n    for", "    let ac_quant = ac_q(qindex, dc_delta_q, bit_depth).get() as i32;\n\n    for")
b23(PR, "    let row_frac = ((mv.row as i32) << (1 - ydec)) & 0xf;", "    let row_frac = ((mv.row as i32) << (1 - xdec)) & 0xf;")
b23(PR, "    let col_offset = mv.col as i32 >> (3 + xdec);", "    let col_offset = mv.col as i32 / (8 << xdec);")
b23(PR, "      y: po.y + row_offset as isize - 3,\n    };\n    (row", "      y: po.y + row_offset as isize - 2,\n    };\n    (row")
b23(PR, "      && ref_frames[1] != RefType::NONE_FRAME;", "      && ref_frames[1] != RefType::LAST_FRAME\n      && ref_frames[1] != RefType::NONE_FRAME;")
b23(PR, "        fi.rec_buffer.frames[fi.ref_frames[ref_frames[i].to_index()] as usize]", "        fi.rec_buffer.frames[ref_frames[i].to_index()]")
b23(PR, "          &rec.frame.planes[p],\n          frame_po,\n          mvs[i],", "          &rec.frame.planes[p],\n          frame_po,\n          mvs[0],")
b23(PR, "      let (row_frac, col_frac, src) =\n        PredictionMode::get_mv_params(&rec.frame.planes[p], frame_po, mv);", "      let (row_frac, col_frac, src) =\n        PredictionMode::get_mv_params(&rec.frame.planes[p], po, mv);")
b23(PR, "        width,\n        height,\n        col_frac,\n        row_frac,\n        mode,\n        mode,\n        fi.sequence.bit_depth,\n        fi.cpu_feature_level,\n      );\n    }\n  }", "        width,\n        height,\n        row_frac,\n        col_frac,\n        mode,\n        mode,\n        fi.sequence.bit_depth,\n        fi.cpu_feature_level,\n      );\n    }\n  }")
b23(PR, "          buffer.get_buffer_mut(i),", "          buffer.get_buffer_mut(i & p),")
b23(PR, "      left_mode: match left_ctx {\n        Some(bi) => match plane {\n          0 => bi.luma_mode,", "      left_mode: match left_ctx {\n        Some(bi) => match plane {\n          0 | 2 => bi.luma_mode,")
b23(PR, "          || self.left_ref_frame_types.unwrap()[0] == RefType::INTRA_FRAME", "          || self.left_ref_frame_types.unwrap()[0] != RefType::INTRA_FRAME")
b23(PR, "      Some(PredictionMode::SMOOTH_PRED)\n      | Some(PredictionMode::SMOOTH_V_PRED)\n      | Some(PredictionMode::SMOOTH_H_PRED) => {\n        self.plane == 0\n          || self.left", "      Some(PredictionMode::SMOOTH_PRED)\n      | Some(PredictionMode::PAETH_PRED)\n      | Some(PredictionMode::SMOOTH_V_PRED)\n      | Some(PredictionMode::SMOOTH_H_PRED) => {\n        self.plane == 0\n          || self.left")
b23(TS, "    if bo_x & 1 == 0 {\n      bo_x += xdec\n    };", "    if bo_x & 1 == 1 {\n      bo_x -= xdec\n    };")
b23(TS, "    if bo_y & 1 == 0 {\n      bo_y += ydec\n    };\n    if bo_x == 0 {", "    if bo_x == 0 {")
s23(EN, "  let coded_tx_area = av1_get_coded_tx_size(tx_size).area();\n  let mut residual", "  let coded_size = av1_get_coded_tx_size(tx_size);\n  let coded_tx_area = coded_size.width() * coded_size.height();\n  let mut residual")
s23(EN, "  if eob == 0 {\n    // All zero coefficients is a no-op\n  } else if !fi.use_tx_domain_distortion || need_recon_pixel {", "  if eob > 0 && (!fi.use_tx_domain_distortion || need_recon_pixel) {")
s23(EN, "  let mut qidx = fi.base_q_idx;\n  let sidx = cw.bc.blocks[tile_bo].segmentation_idx as usize;\n  if ts.segmentation.features[sidx][SegLvl::SEG_LVL_ALT_Q as usize] {\n    let delta = ts.segmentation.data[sidx][SegLvl::SEG_LVL_ALT_Q as usize];\n    qidx = clamp((qidx as i16) + delta, 0, 255) as u8;\n  }\n  qidx", "  let block = &cw.bc.blocks[tile_bo];\n  let sidx = block.segmentation_idx as usize;\n  if !ts.segmentation.features[sidx][SegLvl::SEG_LVL_ALT_Q as usize] {\n    return fi.base_q_idx;\n  }\n  let q = i32::from(fi.base_q_idx) + i32::from(ts.segmentation.data[sidx][SegLvl::SEG_LVL_ALT_Q as usize]);\n  q.max(0).min(255) as u8")
s23(QM, "      let quant = if i == 0 { dc_quant } else { ac_quant };\n      r.write(T::cast_from(\n        (c * quant + ((c >> 31) & offset)) >> log_tx_scale,\n      ));", "      let quant = if i > 0 { ac_quant } else { dc_quant };\n      let prod = c * quant;\n      let round = if c < 0 { offset } else { 0 };\n      r.write(T::cast_from((prod + round) >> log_tx_scale));")
s23(PR, "    let row_offset = mv.row as i32 >> (3 + ydec);\n    let col_offset = mv.col as i32 >> (3 + xdec);\n    let row_frac = ((mv.row as i32) << (1 - ydec)) & 0xf;\n    let col_frac = ((mv.col as i32) << (1 - xdec)) & 0xf;", "    let (row, col) = (i32::from(mv.row), i32::from(mv.col));\n    let row_frac = (row << (1 - ydec)) & 15;\n    let col_frac = (col * (2 >> xdec)) & 15;\n    let row_offset = row >> ydec >> 3;\n    let col_offset = col >> (xdec + 3);")
s23(PR, "    let is_compound = ref_frames[1] != RefType::INTRA_FRAME\n      && ref_frames[1] != RefType::NONE_FRAME;\n\n    if !is_compound {", "    if matches!(ref_frames[1], RefType::INTRA_FRAME | RefType::NONE_FRAME) {")
s23(PR, "      plane,\n      above_mode: match above_ctx {\n        Some(bi) => match plane {\n          0 => bi.luma_mode,\n          _ => bi.chroma_mode,\n        }\n        .into(),\n        None => None,\n      },", "      plane,\n      above_mode: above_ctx.map(|bi| if plane == 0 { bi.luma_mode } else { bi.chroma_mode }),")
s23(TS, "    let (mut bo_x, mut bo_y) = (bo.0.x, bo.0.y);\n    if bo_x & 1 == 0 {\n      bo_x += xdec\n    };\n    if bo_y & 1 == 1 {\n      bo_y -= ydec\n    };\n    if bo_y == 0 {\n      None\n    } else {\n      Some(self.coded_block_info[bo_y - 1][bo_x])\n    }", "    let bo_x = bo.0.x | xdec;\n    let bo_y = if ydec == 1 { bo.0.y & !1 } else { bo.0.y };\n    let row = bo_y.checked_sub(1)?;\n    Some(self.coded_block_info[row][bo_x])")
s23(EN, "        let bi = &mut ts.coded_block_info[tile_bo.0.y + y][tile_bo.0.x + x];\n        bi.luma_mode = luma_mode;\n        bi.chroma_mode = chroma_mode;\n        bi.reference_types = ref_frames;", "        let row = &mut ts.coded_block_info[tile_bo.0.y + y];\n        let info = &mut row[tile_bo.0.x + x];\n        info.reference_types = ref_frames;\n        info.chroma_mode = chroma_mode;\n        info.luma_mode = luma_mode;")
s23(EN, "    let plane_bsize = if p == 0 {\n      bsize\n    } else {\n      bsize.subsampled_size(u_xdec, u_ydec).unwrap()\n    };\n\n    let rec", "    let plane_bsize = match p {\n      0 => bsize,\n      _ => bsize.subsampled_size(u_xdec, u_ydec).unwrap(),\n    };\n\n    let rec")
# ---- C22 element coding
TU = "src/context/transform_unit.rs"; PU = "src/context/partition_unit.rs"; XM = "src/context/mod.rs"


def b22(f, *e): m("C22", "bug", f, *e)
def s22(f, *e): m("C22", "same", f, *e)


b22(TU, "mag += cmp::min(3, levels[3]); // { 3, 0 }", "mag += cmp::min(3, levels[2]); // { 3, 0 }")
b22(TU, "mag += cmp::min(3, levels[(3 << bhl) + (3 << TX_PAD_HOR_LOG2)]);", "mag += cmp::min(3, levels[(3 << bhl) + (2 << TX_PAD_HOR_LOG2)]);")
b22(TU, "TX_CLASS_HORIZ => nz_map_ctx_offset_1d[col],", "TX_CLASS_HORIZ => nz_map_ctx_offset_1d[row],")
b22(TU, "if scan_idx <= area / 4 {", "if scan_idx < area / 4 {")
b22(TU, "        if (row < 2) && (col < 2) {", "        if (row < 2) || (col < 2) {")
b22(TU, "        mag += levels[pos + (stride << 1)] as usize;\n        mag = cmp::min((mag + 1) >> 1, 6);", "        mag += levels[pos + (stride << 1)] as usize;\n        mag = cmp::min((mag + 1) >> 1, 5);")
b22(TU, "      if is_inter {\n        let s = av1_tx_ind", "      if is_inter && !use_reduced_tx_set {\n        let s = av1_tx_ind")
b22(TU, "      if above_blk.skip && above_blk.is_inter() {", "      if above_blk.is_inter() {")
b22(TU, "      if left_blk.skip && left_blk.is_inter() {\n        return left_blk.bsize.height();", "      if left_blk.skip && left_blk.is_inter() {\n        return left_blk.bsize.width();")
b22(TU, "(above_blk.n4_w << MI_SIZE_LOG2) >= max_tx_wide", "(above_blk.n4_w << MI_SIZE_LOG2) > max_tx_wide")
b22(TU, "+ (TxSize::TX_SIZES - 1 - max_tx_size as usize) * 2;", "+ (TxSize::TX_SIZES - 1 - tx_size.sqr_up() as usize) * 2;")
b22(TU, "self.get_left_tx_height(bo, bsize, tx_size, tbx == 0)", "self.get_left_tx_height(bo, bsize, tx_size, tby == 0)")
b22(TU, "    } else if tx_size_sqr == TxSize::TX_16X16 {\n      TxSet::TX_SET_INTER_2", "    } else if tx_size_sqr_up == TxSize::TX_16X16 {\n      TxSet::TX_SET_INTER_2")
b22(BU, "*cul_level += 2 << COEFF_CONTEXT_BITS;", "*cul_level |= 1 << COEFF_CONTEXT_BITS;")
b22(BU, "if level > T::cast_from(COEFF_BASE_RANGE + NUM_BASE_LEVELS) {", "if level >= T::cast_from(COEFF_BASE_RANGE + NUM_BASE_LEVELS) {")
b22(BU, "          level - T::cast_from(COEFF_BASE_RANGE + NUM_BASE_LEVELS + 1),", "          level - T::cast_from(COEFF_BASE_RANGE + NUM_BASE_LEVELS),")
b22(BU, "[txs_ctx.min(TxSize::TX_32X32 as usize)]", "[txs_ctx.min(TxSize::TX_16X16 as usize)]")
b22(BU, "let cdf = &self.fc.dc_sign_cdf[plane_type][txb_ctx.dc_sign_ctx];", "let cdf = &self.fc.dc_sign_cdf[plane_type][txb_ctx.dc_sign_ctx.min(1)];")
b22(BU, "        eob_shift = eob_offset_bits - 1 - i;", "        eob_shift = i - 1;")
b22(BU, "    let plane_type = usize::from(plane != 0);\n\n    // Signal", "    let plane_type = usize::from(plane == 1);\n\n    // Signal")
b22(BU, "cmp::min(COEFF_CONTEXT_MASK as u32, orig_cul_level);", "cmp::min(COEFF_CONTEXT_MASK as u32 - 1, orig_cul_level);")
b22(BU, "    let eob_multi_ctx: usize = usize::from(tx_class != TX_CLASS_2D);", "    let eob_multi_ctx: usize = usize::from(tx_class == TX_CLASS_HORIZ);")
b22(BU, "        let max = cmp::min(top | left, 4);", "        let max = cmp::min(top + left, 4);")
b22(BU, "        let top: u8 = above_ctxs.iter().fold(0, |acc, ctx| acc | *ctx)\n          & COEFF_CONTEXT_MASK as u8;", "        let top: u8 = above_ctxs.iter().fold(0, |acc, ctx| acc.max(*ctx));")
b22(BU, "        10\n      } else {\n        7\n", "        7\n      } else {\n        10\n")
b22(BU, "        (above_backward ^ left_backward) as usize", "        (above_backward || left_backward) as usize")
b22(BU, "let refmv_ctx = (ctx >> REFMV_OFFSET) & REFMV_CTX_MASK;", "let refmv_ctx = (ctx >> REFMV_OFFSET) & GLOBALMV_CTX_MASK;")
b22(BU, "    if mv_joint_horizontal(j) {\n      self.encode_mv_component(w, diff.col as i32, 1", "    if mv_joint_horizontal(j) {\n      self.encode_mv_component(w, diff.col as i32, 0")
b22(XM, "      let n = mv_class + CLASS0_BITS - 1; // number of bits", "      let n = (mv_class + CLASS0_BITS - 1).min(9); // number of bits")
b22(XM, "        &mvcomp.class0_fp_cdf[d as usize]", "        &mvcomp.class0_fp_cdf[(offset & 1) as usize]")
b22(XM, "  let c = if z >= CLASS0_SIZE as u32 * 4096 {", "  let c = if z > CLASS0_SIZE as u32 * 4096 {")
b22(PU, "(prev_ul == prev_u) || (prev_ul == prev_l) || (prev_u == prev_l)", "(prev_ul == prev_u) || (prev_ul == prev_l)")
b22(PU, "r = if prev_ul == prev_u { prev_u } else { prev_l };", "r = if prev_ul == prev_l { prev_l } else { prev_u };")
b22(PU, "((r as u8).min(last_active_segid), cdf_index)", "(r as u8, cdf_index)")
b22(PU, "let left_skip = bo.0.x > 0 && self.blocks.left_of(bo).skip;", "let left_skip = bo.0.x > 0 && bo.0.y > 0 && self.blocks.left_of(bo).skip;")
b22(PU, "    (left * 2 + above) as usize + bsl", "    (above * 2 + left) as usize + bsl")
b22(PU, "      } else if ctx < 4 * PARTITION_TYPES {", "      } else if ctx < 5 * PARTITION_TYPES {")
b22(PU, "      for left in &mut self.left_coeff_context[plane][(bo_y >> ydec2)..][..bh]", "      for left in &mut self.left_coeff_context[plane][(bo_y >> ydec2)..][..bh.min(8)]")
b22(PU, "    if skip {\n      self.bc.blocks.set_segmentation_idx(bo, bsize, pred);", "    if skip {\n      self.bc.blocks.set_segmentation_idx(bo, bsize, cdf_index);")
b22(BU, "        let bits = msb(abs as i32 - 1) as u32;", "        let bits = msb(abs as i32) as u32;")
s22(TU, "    let mut mag = cmp::min(3, levels[1]); // { 1, 0 }\n    mag += cmp::min(3, levels[(1 << bhl) + TX_PAD_HOR]); // { 0, 1 }", "    let stride = (1 << bhl) + TX_PAD_HOR;\n    let mut mag = levels[stride].min(3);\n    mag += levels[1].min(3);")
s22(TU, "    if is_eob {\n      if scan_idx == 0 {\n        return 0;\n      }\n      if scan_idx <= area / 8 {\n        return 1;\n      }\n      if scan_idx <= area / 4 {\n        return 2;\n      }\n      return 3;\n    }", "    if is_eob {\n      return match scan_idx {\n        0 => 0,\n        i if i * 8 <= area => 1,\n        i if i * 4 <= area => 2,\n        _ => 3,\n      };\n    }")
s22(TU, "      if is_inter {\n        let s = av1_tx_ind[tx_set as usize][tx_type as usize] as u32;\n        if tx_set_index == 1 {\n          let cdf = &self.fc.inter_tx_1_cdf[square_tx_size as usize];\n          symbol_with_update!(self, w, s, cdf);\n        } else if", "      if is_inter {\n        let s = u32::from(av1_tx_ind[tx_set as usize][tx_type as usize] as u8);\n        if tx_set_index == 1 {\n          symbol_with_update!(self, w, s, &self.fc.inter_tx_1_cdf[square_tx_size as usize]);\n        } else if")
s22(BU, "    for (c, &v) in coeffs.iter().enumerate() {\n      if v == T::cast_from(0) {\n        continue;\n      }\n\n      let level = v.abs();", "    for c in 0..coeffs.len() {\n      let v = coeffs[c];\n      let level = v.abs();\n      if level == T::cast_from(0) {\n        continue;\n      }\n")
s22(BU, "      cmp::min(COEFF_CONTEXT_MASK as u32, orig_cul_level);", "      orig_cul_level.min(COEFF_CONTEXT_MASK as u32);")
s22(BU, "      let mut eob_shift = eob_offset_bits - 1;\n      let mut bit: u32 = u32::from((eob_extra & (1 << eob_shift)) != 0);", "      let mut eob_shift = eob_offset_bits - 1;\n      let mut bit: u32 = (eob_extra >> eob_shift) & 1;")
s22(BU, "    let cul_level: u32 = coeffs.iter().map(|c| u32::cast_from(c.abs())).sum();", "    let mut cul_level: u32 = 0;\n    for c in coeffs.iter() {\n      cul_level += u32::cast_from(c.abs());\n    }")
s22(BU, "        loop {\n          if idx >= T::cast_from(COEFF_BASE_RANGE) {\n            break;\n          }\n", "        while idx < T::cast_from(COEFF_BASE_RANGE) {\n")
s22(BU, "        let max = cmp::min(top | left, 4);\n        let min = cmp::min(cmp::min(top, left), 4);", "        let min = top.min(left).min(4);\n        let max = top.max(left).min(4);")
s22(XM, "    let sign: u32 = u32::from(comp < 0);\n    let mag: u32 = if sign == 1 { -comp as u32 } else { comp as u32 };", "    let mag = comp.unsigned_abs();\n    let sign: u32 = u32::from(comp < 0);")
s22(PU, "    above_skip as usize + left_skip as usize\n", "    usize::from(left_skip) + usize::from(above_skip)\n")
s22(PU, "    } else if (prev_ul == prev_u) && (prev_ul == prev_l) {\n      cdf_index = 2;\n    } else if (prev_ul == prev_u) || (prev_ul == prev_l) || (prev_u == prev_l)\n    {\n      cdf_index = 1;\n    } else {\n      cdf_index = 0;\n    }", "    } else {\n      let a = prev_ul == prev_u;\n      let b = prev_ul == prev_l;\n      let c = prev_u == prev_l;\n      cdf_index = if a && b { 2 } else { (a || b || c) as u8 };\n    }")

s22(BU, "    let diff =\n      MotionVector { row: mv.row - ref_mv.row, col: mv.col - ref_mv.col };", "    let diff = mv - ref_mv;")


def b24(f, *e): m("C24", "bug", f, *e)
def s24(f, *e): m("C24", "same", f, *e)


b24(PR.replace("predict", "partition"), "  let mut has_tr = !((mask_row & bs) != 0 && (mask_col & bs) != 0);", "  let mut has_tr = (mask_row & bs) == 0;")
b24(PR.replace("predict", "partition"), "  if (target_n4_w < target_n4_h) && (bo.0.x & target_n4_w) == 0 {\n    has_tr = true;", "  if (target_n4_w < target_n4_h) && (bo.0.x & target_n4_h) == 0 {\n    has_tr = true;")
b24(PR.replace("predict", "partition"), "  if (target_n4_w > target_n4_h) && (bo.0.y & target_n4_h) != 0 {\n    has_tr = false;", "  if (target_n4_w > target_n4_h) && (bo.0.y & target_n4_w) != 0 {\n    has_tr = false;")
b24(PR.replace("predict", "partition"), "      if (mask_col & (2 * bs) != 0) && (mask_row & (2 * bs) != 0) {\n        has_tr = false;\n        break;\n      }", "      if (mask_col & (2 * bs) != 0) && (mask_row & (2 * bs) != 0) {\n        has_tr = false;\n      }\n      break;")
b24(BU, "        let inc = cmp::min(-max_row_offs + row_offset + 1, cand.n4_h as isize);", "        let inc = cmp::min(-max_row_offs + row_offset + 1, cand.n4_w as isize);")
b24(BU, "        *processed_cols = inc - col_offset - 1;", "        *processed_cols = inc - col_offset;")
b24(BU, "      if target_n4_h >= n4_h_8 && target_n4_h <= n4_h {", "      if target_n4_h >= n4_h_8 && target_n4_h < n4_h {")
b24(BU, "      if ((bo.0.y & 0x01) != 0) && (target_n4_h < n4_h_8) {\n        row_offset -= 1;", "      if target_n4_h < n4_h_8 {\n        row_offset -= 1;")
b24(BU, "    let use_step_16 = target_n4_h >= 16;", "    let use_step_16 = target_n4_h > 16;")
b24(BU, "    if bo.0.x >= self.bc.blocks.cols() || bo.0.y >= self.bc.blocks.rows() {\n      return false;", "    if bo.0.y >= self.bc.blocks.rows() {\n      return false;")
b24(BU, "    let weight = 2 * BLOCK_8X8.width_mi() as u32;", "    let weight = BLOCK_8X8.width_mi() as u32;")
b24(BU, "        max_row_offs = -2 * 2 + row_adj as isize;", "        max_row_offs = -2 * 2;")
b24(BU, "      let row_offset = -2 * idx as isize + 1 + row_adj as isize;", "      let row_offset = -2 * idx as isize + 1;")
b24(BU, "        && col_offset.abs() > processed_cols\n", "        && col_offset.abs() > processed_rows\n")
b24(BU, "      && self.scan_blk_mbmi(\n        bo.with_offset(-1, -1),\n        ref_frames,\n        mv_stack,\n        &mut far_newmv_count,", "      && self.scan_blk_mbmi(\n        bo.with_offset(-1, -1),\n        ref_frames,\n        mv_stack,\n        &mut newmv_count,")
b24(BU, "      1 => 3 - cmp::min(newmv_count, 1) + ((2 + total_match) << REFMV_OFFSET),", "      1 => 3 - cmp::min(newmv_count, 1) + ((3 + nearest_match) << REFMV_OFFSET),")
b24(BU, "      let w4 = bsize.width_mi().min(16).min(self.bc.blocks.cols() - bo.0.x);", "      let w4 = bsize.width_mi().min(self.bc.blocks.cols());")
b24(BU, "      let passes = i32::from(!up_avail)..=i32::from(left_avail);", "      let passes = 0..=i32::from(left_avail);")
b24(BU, "            if comp_count < 2 {\n              combined_mvs[comp_count][list] = ref_diff_mvs[list][idx];", "            if comp_count < 2 {\n              combined_mvs[comp_count][list] = ref_diff_mvs[list][0];")
b24(BU, "            && combined_mvs[0][1].row == mv_stack[0].comp_mv.row\n            && combined_mvs[0][1].col == mv_stack[0].comp_mv.col\n", "            && combined_mvs[0][1].row == mv_stack[0].comp_mv.row\n")
b24(BU, "        - (blk_h / MI_SIZE) as isize)\n        * (8 * MI_SIZE) as isize\n        + border_h;", "        - (blk_w / MI_SIZE) as isize)\n        * (8 * MI_SIZE) as isize\n        + border_h;")
b24(BU, "      let border_h = 128 + blk_h as isize * 8;", "      let border_h = 128 + blk_h as isize * 4;")
b24(BU, "      x: self.bc.blocks.x() + bo.0.x,\n      y: self.bc.blocks.y() + bo.0.y,\n    });\n    // clamp mvs", "      x: bo.0.x,\n      y: self.bc.blocks.y() + bo.0.y,\n    });\n    // clamp mvs")
b24(BU, "mv_stack.sort_by(|a, b| b.weight.cmp(&a.weight));", "mv_stack.sort_by(|a, b| a.weight.cmp(&b.weight).reverse().then(b.this_mv.row.cmp(&a.this_mv.row)));")
b24(RD, "      if mv_stack.len() >= 3 {\n        inter_mode_set.push((PredictionMode::NEAR1MV, i));", "      if mv_stack.len() >= 2 {\n        inter_mode_set.push((PredictionMode::NEAR1MV, i));")
b24(RD, "        [mv_stacks[i][0].this_mv, mvs_from_me[i][1]]", "        [mv_stacks[i][0].comp_mv, mvs_from_me[i][1]]")
b24(RD, "        [mvs_from_me[i][0], mv_stacks[i][0].comp_mv]", "        [mvs_from_me[i][0], mv_stacks[i][1].comp_mv]")
b24(RD, "        if mv_stacks[i].len() > 1 {\n          [mv_stacks[i][1].this_mv, mv_stacks[i][1].comp_mv]", "        if !mv_stacks[i].is_empty() {\n          let k = mv_stacks[i].len().min(2) - 1;\n          [mv_stacks[i][k].this_mv, mv_stacks[i][k].comp_mv]")
b24(RD, "        mode_contexts[i],\n        &mv_stacks[i],", "        mode_contexts[i.min(mode_contexts.len() - 2)],\n        &mv_stacks[i],")
b24(RD, "        let ref_frames = [ref_frames_set[r0][0], ref_frames_set[r1][0]];\n        ref_frames_set.push(ref_frames);", "        let ref_frames = [ref_frames_set[r0][0], ref_frames_set[r1][0]];\n        ref_frames_set.push([ref_frames[0], ALTREF_FRAME]);")
s24(PR.replace("predict", "partition"), "  let mut has_tr = !((mask_row & bs) != 0 && (mask_col & bs) != 0);", "  let mut has_tr = (mask_row & bs) == 0 || (mask_col & bs) == 0;")
s24(BU, "      if ((bo.0.y & 0x01) != 0) && (target_n4_h < n4_h_8) {\n        row_offset -= 1;\n      }", "      let odd = bo.0.y % 2 == 1;\n      if odd && target_n4_h < n4_h_8 {\n        row_offset = 0;\n      }")
s24(BU, "    for idx in 2..=MVREF_ROW_COLS {\n", "    for idx in 2..MVREF_ROW_COLS + 1 {\n")
s24(BU, "mv_stack.sort_by(|a, b| b.weight.cmp(&a.weight));", "mv_stack.sort_by_key(|c| std::cmp::Reverse(c.weight));")
s24(BU, "    for cand_mv in mv_stack {\n      cand_mv.weight += REF_CAT_LEVEL;\n    }", "    mv_stack.iter_mut().for_each(|cand_mv| cand_mv.weight += REF_CAT_LEVEL);")
s24(BU, "      1 => 3 - cmp::min(newmv_count, 1) + ((2 + total_match) << REFMV_OFFSET),", "      1 => {\n        let new_ctx = if newmv_count > 0 { 2 } else { 3 };\n        let ref_ctx = total_match + 2;\n        new_ctx | (ref_ctx << REFMV_OFFSET)\n      }")
s24(BU, "        let mut idx = 0;\n        while idx < num4x4 && mv_stack.len() < 2 {\n", "        let mut idx = 0;\n        loop {\n          if idx >= num4x4 || mv_stack.len() >= 2 {\n            break;\n          }\n")
s24(RD, "        if !mv_stacks[i].is_empty() {\n          [mv_stacks[i][0].this_mv, mv_stacks[i][0].comp_mv]\n        } else {\n          [MotionVector::default(); 2]\n        }", "        match mv_stacks[i].first() {\n          Some(c) => [c.this_mv, c.comp_mv],\n          None => [MotionVector::default(); 2],\n        }")
s24(RD, "        if mv_stacks[i].len() > 1 {\n          [mv_stacks[i][1].this_mv, mv_stacks[i][1].comp_mv]\n        } else {\n          [MotionVector::default(); 2]\n        }", "        mv_stacks[i]\n          .get(1)\n          .map_or([MotionVector::default(); 2], |c| [c.this_mv, c.comp_mv])")
s24(RD, "    let mut pmv = [MotionVector::default(); 2];\n    if !mv_stack.is_empty() {\n      pmv[0] = mv_stack[0].this_mv;\n    }\n    if mv_stack.len() > 1 {\n      pmv[1] = mv_stack[1].this_mv;\n    }", "    let mut pmv = [MotionVector::default(); 2];\n    for (p, c) in pmv.iter_mut().zip(mv_stack.iter()) {\n      *p = c.this_mv;\n    }")
s24(RD, "    satds.push(0);\n", "    satds.push(0u32);\n")
b24(BU, "          if blk.mode.has_newmv() {\n            *newmv_count += 1;\n          }\n\n          found = true;\n        }\n      }\n      found\n", "          if blk.mode == PredictionMode::NEWMV {\n            *newmv_count += 1;\n          }\n\n          found = true;\n        }\n      }\n      found\n")
b24(BU, "            != fi.ref_frame_sign_bias[ref_frames[0].to_index()]\n          {\n            mv.row = -mv.row;\n            mv.col = -mv.col;", "            != fi.ref_frame_sign_bias[ref_frames[0].to_index()]\n          {\n            mv.row = -mv.row;")
b24(BU, "            if cand_ref == ref_frames[list] && ref_id_count[list] < 2 {", "            if cand_ref == ref_frames[cand_list] && ref_id_count[list] < 2 {")


# ------------------------------------------------------------------- C25
DB_, CE = "src/deblock.rs", "src/cdef.rs"


def b25(f, *e): m("C25", "bug", f, *e)
def s25(f, *e): m("C25", "same", f, *e)


b25(DB_, "    || block.ref_frames[0] == INTRA_FRAME\n    || prev_block.ref_frames[0] == INTRA_FRAME)", "    || block.ref_frames[0] == INTRA_FRAME)")
b25(DB_, "  if !(block_edge\n    || !block.skip\n", "  if !(block_edge && !prev_block.skip\n    || !block.skip\n")
b25(DB_, "      if pli == 0 { 14 } else { 6 },", "      if pli == 0 { 14 } else { 8 },")
b25(DB_, "      cmp::min(tx_n, prev_tx_n) << MI_SIZE_LOG2,", "      tx_n << MI_SIZE_LOG2,")
b25(DB_, "      (cmp::max(txsize.height_mi(), 1), cmp::max(prev_txsize.height_mi(), 1))", "      (cmp::max(txsize.height_mi(), 1), cmp::max(prev_txsize.width_mi(), 1))")
b25(DB_, "  let idx = if pli == 0 { usize::from(!vertical) } else { pli + 1 };", "  let idx = if pli == 0 { usize::from(!vertical) } else { 2 };")
b25(DB_, "  if level == 0 {\n    deblock_adjusted_level(deblock, prev_block, pli, vertical)", "  if level == 0 {\n    deblock_adjusted_level(deblock, prev_block, pli, !vertical)")
b25(DB_, "  &blocks[in_bo.0.y | ydec][(in_bo.0.x | xdec) - (1 << xdec)]", "  &blocks[in_bo.0.y | ydec][in_bo.0.x - 1]")
b25(DB_, "  &blocks[(in_bo.0.y | ydec) - (1 << ydec)][in_bo.0.x | xdec]", "  &blocks[(in_bo.0.y | ydec) - (1 << ydec)][in_bo.0.x]")
b25(DB_, "  let filter1 =\n    clamp(filter0 + 3 * (q0 - p0) + 4, -128 << shift, (128 << shift) - 1) >> 3;\n  // be certain our optimization removing a clamp is sound\n  debug_assert!({\n    let base =\n      clamp(filter0", "  let filter1 =\n    clamp(filter0 + 3 * (q0 - p0) + 3, -128 << shift, (128 << shift) - 1) >> 3;\n  // be certain our optimization removing a clamp is sound\n  debug_assert!({\n    let base =\n      clamp(filter0")
b25(DB_, "      if deblock.levels[2] == 0 {\n        return;", "      if deblock.levels[3] == 0 {\n        return;")
b25(DB_, "      if deblock.levels[0] == 0 && deblock.levels[1] == 0 {\n        return;", "      if deblock.levels[0] == 0 || deblock.levels[1] == 0 {\n        return;")
b25(DB_, "          x: x - (2 << xdec),\n          y: y - (1 << ydec),\n        }),\n        p,", "          x: x - (2 << xdec),\n          y: y - (1 << ydec),\n        }),\n        p,".replace("2 << xdec", "1 << xdec"))
b25(DB_, "          x: cols - (2 << xdec),\n          y: y - (1 << ydec),", "          x: cols - (1 << xdec),\n          y: y - (1 << ydec),")
b25(CE, "  if cdef_sec_uv_strength == 3 {\n    cdef_sec_uv_strength += 1;\n  }\n", "")
b25(CE, "[7, 0, 2, 4, 5, 6, 6, 6][dir as usize]", "[7, 0, 2, 4, 5, 6, 6, 7][dir as usize]")
b25(CE, "              local_damping -= 1;\n", "")
b25(CE, "              if cdef_pri_y_strength != 0 {", "              if local_pri_strength != 0 {")
b25(CE, "cmp::min(msb(var >> 6), 12)", "cmp::min(msb(var >> 6), 11)")
b25(CE, "      if bx + 1 >= (input_xavail as usize >> 3) {", "      if bx + 1 > (input_xavail as usize >> 3) {")
b25(CE, "        let skip = blocks[block_offset].skip\n          & blocks[tile_sbo.block_offset(2 * bx + 1, 2 * by)].skip\n          & blocks[tile_sbo.block_offset(2 * bx, 2 * by + 1)].skip\n", "        let skip = blocks[block_offset].skip\n          & blocks[tile_sbo.block_offset(2 * bx + 1, 2 * by)].skip\n")
b25(CE, "      edges |= CDEF_HAVE_LEFT;\n    }\n    edges |= CDEF_HAVE_TOP;", "      edges |= CDEF_HAVE_LEFT;\n    }\n    edges |= have_top_p;")
b25(CE, "        cdef_pri_taps[((pri_strength >> coeff_shift) & 1) as usize];", "        cdef_pri_taps[(pri_strength & 1) as usize];")
b25(CE, "              cdef_directions[(dir + 6) & 7][k],", "              cdef_directions[(dir + 5) & 7][k],")
b25(CE, "              if *p_elem != CDEF_VERY_LARGE as i32 {\n                max", "              {\n                max")
b25(CE, "((8 + sum - (sum < 0) as i32) >> 4)", "((8 + sum) >> 4)")
b25(CE, "        partial[3][3 + i - j / 2] += x;", "        partial[3][3 + i - (j + 1) / 2] += x;")
b25(CE, "          * CDEF_DIV_TABLE[2 * j + 2];", "          * CDEF_DIV_TABLE[2 * j + 1];")
b25(CE, "    *var = ((best_cost - cost[(best_dir + 4) & 7]) >> 10) as u32;", "    *var = ((best_cost - cost[(best_dir + 4) & 7]) / 840) as u32;")
b25(EN, "  if fs.deblock.levels[0] != 0 || fs.deblock.levels[1] != 0 {\n    fs.apply", "  if fs.deblock.levels[0] != 0 {\n    fs.apply")
b25(EN, "    if fi.sequence.enable_cdef {\n      fs.apply_tile_state_mut(|ts| {\n        let rec = &mut ts.rec;\n        cdef_filter_tile(fi, &deblocked_frame, &blocks.as_tile_blocks(), rec);\n      });\n    }\n", "    if fi.sequence.enable_cdef {\n      fs.apply_tile_state_mut(|ts| {\n        let rec = &mut ts.rec;\n        cdef_filter_tile(fi, &deblocked_frame, &blocks.as_tile_blocks(), rec);\n      });\n    }\n    let deblocked_frame = (*fs.rec).clone();\n")
s25(DB_, "  if level == 0 {\n    deblock_adjusted_level(deblock, prev_block, pli, vertical)\n  } else {\n    level\n  }", "  if level != 0 {\n    return level;\n  }\n  deblock_adjusted_level(deblock, prev_block, pli, vertical)")
s25(DB_, "      cmp::min(tx_n, prev_tx_n) << MI_SIZE_LOG2,", "      cmp::min(tx_n << MI_SIZE_LOG2, prev_tx_n << MI_SIZE_LOG2),")
s25(DB_, "  let tx_edge = (bo.0.x >> xdec) & (txsize.width_mi() - 1) == 0;\n  if tx_edge {\n    let prev_block = deblock_left(blocks, bo, &p.as_const());", "  let tx_edge = (bo.0.x >> xdec) % txsize.width_mi() == 0;\n  if tx_edge {\n    let prev_block = deblock_left(blocks, bo, &p.as_const());")
s25(DB_, "  let filter0 = clamp(p1 - q1, -128 << shift, (128 << shift) - 1);", "  let hi = (128 << shift) - 1;\n  let filter0 = clamp(p1 - q1, -hi - 1, hi);")
s25(CE, "  if cdef_sec_uv_strength == 3 {\n    cdef_sec_uv_strength += 1;\n  }\n", "  if cdef_sec_uv_strength > 2 {\n    cdef_sec_uv_strength = 4;\n  }\n")
s25(CE, "        let dir = cdef_dirs.dir[bx][by];\n        let var = cdef_dirs.var[bx][by];\n", "        let (dir, var) = (cdef_dirs.dir[bx][by], cdef_dirs.var[bx][by]);\n")
s25(CE, "            let sec_tap = sec_taps[k];\n", "            let sec_tap = 2 - k as i32;\n")
s25(CE, "          let v = x + ((8 + sum - (sum < 0) as i32) >> 4);", "          let adj = if sum < 0 { 7 } else { 8 };\n          let v = x + ((adj + sum) >> 4);")
s25(CE, "    let fb_width = output.planes[0].rect().width.div_ceil(64);".strip(), "let fb_width = (output.planes[0].rect().width + 63) >> 6;")
s25(CE, "        let x = (p >> coeff_shift) - 128;\n        partial[0][i + j] += x;\n        partial[1][i + j / 2] += x;", "        let x = (p >> coeff_shift) - 128;\n        partial[0][j + i] += x;\n        partial[1][i + (j >> 1)] += x;")
s25(EN, "  if fs.deblock.levels[0] != 0 || fs.deblock.levels[1] != 0 {\n    fs.apply", "  if fs.deblock.levels[..2].iter().any(|&l| l != 0) {\n    fs.apply")
