/* Sequences of calls as users make them.  Analysed together with the library, never run: every function here is one more
   entry point for the path analysis, with any arguments and any outcome of each allocation, file operation or callback. */
#define U __attribute__((used)) static

typedef struct { sp_time_t n; sp_sample_t a; sp_sample_t b; sp_sample_t c; sp_sample_t d; } vp_arg_t;

/* a configuration of the filter state is replaced, then released */
U void vp_filter_state(sp_convolution_filter_ir_f_t f, void* a, uint8_t a_len, void* b, uint8_t b_len) {
  sp_convolution_filter_state_t* s = 0;
  status_t st = sp_convolution_filter_state_set(f, a, a_len, &s);
  if (st.id) return;
  sp_convolution_filter_state_set(f, b, b_len, &s);
  sp_convolution_filter_state_free(s);
}
U void vp_filter_state_lp(sp_sample_t* in, sp_time_t n, sp_sample_t* out, sp_sample_t cutoff, sp_sample_t transition) {
  sp_convolution_filter_state_t* s = 0;
  sp_windowed_sinc_lp_hp(in, n, cutoff, transition, 0, &s, out);
  if (s) sp_convolution_filter_state_free(s);
}

/* blocks */
U void vp_block(sp_time_t n, sp_channel_count_t channel_count) {
  sp_block_t a; sp_block_t b;
  if (sp_block_new(channel_count, n, &a).id) return;
  if (sp_block_new(channel_count, n, &b).id) { sp_block_free(&a); return; }
  sp_block_zero(a);
  sp_block_copy(a, b);
  sp_block_free(&a);
  sp_block_free(&b);
}

/* the memory register of an event */
U void vp_event_memory(sp_time_t n) {
  sp_event_t e = { 0 };
  sp_sample_t* a; sp_sample_t* b;
  if (sp_samples_new(n, &a).id) return;
  if (sp_event_memory_add(&e, a).id) { free(a); return; }
  if (sp_samples_new(n, &b).id == 0) {
    if (sp_event_memory_add(&e, b).id) free(b);
  }
  if (e.free) (e.free)(&e);
}
U void vp_event_memory_fixed(sp_time_t n) {
  sp_event_t e = { 0 };
  sp_sample_t* a; sp_sample_t* b;
  if (sp_event_memory_ensure(&e, 2).id) return;
  if (sp_samples_new(n, &a).id == 0) sp_event_memory_fixed_add(&e, a);
  if (sp_samples_new(n, &b).id == 0) sp_event_memory_fixed_add(&e, b);
  sp_event_memory_free(&e);
}
U status_t vp_event_macros(sp_event_t* e, sp_time_t n, sp_sample_t** a, sp_time_t** b, void** c) {
  status_declare;
  sp_event_samples_srq(e, n, a);
  sp_event_times_srq(e, n, b);
  sp_event_malloc_srq(e, n, c);
exit:
  status_return;
}
U void vp_event_macros_free(sp_time_t n) {
  sp_sample_t* a; sp_time_t* b; void* c;
  sp_event_t e = { 0 };
  vp_event_macros(&e, n, &a, &b, &c);
  if (e.free) (e.free)(&e);
}
U status_t vp_event_path_macros(sp_event_t* e, sp_time_t n, sp_sample_t** a, sp_time_t** b, sp_sample_t x, sp_sample_t y) {
  status_declare;
  sp_event_path_samples3_srq(e, a, n, x, y, y, y);
  sp_event_path_times3_srq(e, b, n, x, y, y, y);
exit:
  status_return;
}
U void vp_event_envelope_macros(sp_time_t n, sp_sample_t x, sp_sample_t y) {
  status_declare;
  sp_sample_t* a; sp_time_t* b;
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_event_envelope_zero3_srq(ep, &a, n, x, y);
  sp_event_envelope_scaled3_srq(ep, &b, n, x, x, y, y, y);
exit:
  if (e.free) (e.free)(&e);
}

/* event lists take over the event */
U void vp_list(sp_event_t a, sp_event_t b) {
  sp_event_list_t* l = 0;
  if (sp_event_list_add(&l, a).id) return;
  sp_event_list_add(&l, b);
  sp_event_list_reverse(&l);
  sp_event_list_remove(&l, l);
  sp_event_list_free(&l);
}
U void vp_list_seq(sp_event_t a, sp_time_t start, sp_time_t end, sp_block_t out) {
  sp_event_list_t* l = 0;
  if (sp_event_list_add(&l, a).id) return;
  sp_seq(start, end, out, &l);
  sp_event_list_free(&l);
}
U void vp_list_seq_parallel(sp_event_t a, sp_time_t start, sp_time_t end, sp_block_t out) {
  sp_event_list_t* l = 0;
  if (sp_event_list_add(&l, a).id) return;
  sp_seq_parallel(start, end, out, &l);
  sp_event_list_free(&l);
}

/* groups */
U void vp_group(sp_event_t a, sp_event_t b, sp_time_t start, sp_time_t end, sp_block_t out) {
  sp_event_t g = { 0 }; sp_event_t* gp = &g;
  sp_group_event(gp);
  sp_group_add(gp, a);
  sp_group_append(gp, b);
  if ((g.prepare)(gp).id == 0) (g.generate)(start, end, out, gp);
  if (g.free) (g.free)(gp); else sp_group_free(gp);
}

/* wave events */
U void vp_wave(sp_time_t start, sp_time_t end, sp_sample_t* amod, sp_block_t out) {
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_wave_event_config_t* c;
  if (!sp_rate || sp_wave_event_config_new(&c).id) return;
  c->channel_config[0].amod = amod;
  sp_wave_event(ep, c);
  e.end = end;
  if ((e.prepare)(ep).id == 0) (e.generate)(start, end, out, ep);
  if (e.free) (e.free)(ep);
  free(c);
}

/* noise events; a failed preparation must leave nothing that the release would release again */
U void vp_noise(sp_time_t end, sp_sample_t* amod, sp_time_t* fmod, sp_time_t* wmod) {
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_noise_event_config_t* c;
  if (sp_noise_event_config_new(&c).id) return;
  c->channel_config[0].amod = amod;
  c->channel_config[0].fmod = fmod;
  c->channel_config[0].wmod = wmod;
  sp_noise_event(ep, c);
  e.end = end;
  (e.prepare)(ep);
  if (e.free) (e.free)(ep);
  free(c);
}

/* a rendered noise event */
U void vp_noise_two(sp_time_t end, sp_sample_t* amod, sp_time_t* fmod, sp_frq_t frq) {
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_noise_event_config_t* c;
  if (sp_noise_event_config_new(&c).id) return;
  c->channel_config[0].amod = amod;
  c->channel_config[1].use = 1;
  c->channel_config[1].frq = 1 + frq;
  c->channel_config[1].fmod = fmod;
  sp_noise_event(ep, c);
  e.end = end;
  (e.prepare)(ep);
  if (e.free) (e.free)(ep);
  free(c);
}

/* events that apply a function to another one */
U void vp_map(sp_event_t inner, sp_map_generate_t f, void* state, sp_bool_t isolate, sp_time_t start, sp_time_t end, sp_block_t out) {
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_map_event_config_t* c;
  if (sp_map_event_config_new(&c).id) return;
  c->event = inner; c->map_generate = f; c->config = state; c->isolate = isolate;
  sp_map_event(ep, c);
  e.end = end;
  if ((e.prepare)(ep).id == 0) (e.generate)(start, end, out, ep);
  if (e.free) (e.free)(ep);
  free(c);
}

/* files */
U void vp_file_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t rate, sp_sample_t** samples, sp_time_t n) {
  sp_file_t f;
  if (sp_file_open_write(path, channel_count, rate, &f).id) return;
  sp_file_write(&f, samples, n);
  sp_file_close_write(&f);
}
U void vp_file_read(uint8_t* path, sp_sample_t** samples, sp_time_t n) {
  sp_file_t f;
  if (sp_file_open_read(path, &f).id) return;
  sp_file_read(f, samples == 0 ? 0 : n, samples);
  sp_file_close_read(f);
}

/* rendering */
U void vp_render_block(sp_event_t e, sp_time_t start, sp_time_t end, sp_render_config_t c) {
  sp_block_t b;
  if (!c.channel_count || c.channel_count > sp_channel_count_limit) return;
  if (sp_render_range_block(e, start, end, c, &b).id) return;
  sp_block_free(&b);
}

/* paths */
U void vp_path(sp_time_t n, sp_path_point_count_t count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
  sp_sample_t* a; sp_time_t* b;
  if (sp_path_samples(&a, n, count, x, y, c).id == 0) free(a);
  if (sp_path_times(&b, n, count, x, y, c).id == 0) free(b);
}
U void vp_path_short(sp_time_t n, sp_sample_t x1, sp_sample_t x2, sp_sample_t y, sp_sample_t c) {
  sp_sample_t* a; sp_time_t* b;
  if (sp_path_samples_c4(&a, n, x1, x2, y, y, y, y, c, c, c).id == 0) free(a);
  if (sp_path_times4(&b, n, x1, x2, y, y, y, y).id == 0) free(b);
  if (sp_envelope_zero_c3(&a, n, x1, y, c, c).id == 0) free(a);
  if (sp_envelope_scaled3(&b, n, y, x1, y, y, y).id == 0) free(b);
}
U void vp_spline(spline_path_segment_t* segments, spline_path_segment_count_t n, size_t start, size_t end, double* out) {
  spline_path_t p;
  if (spline_path_set_copy(&p, segments, n)) return;
  spline_path_get(&p, start, end, out);
  spline_path_free(p);
  free(p.segments);
}
U void vp_spline_segments(double x, double y, size_t start, size_t end, double* out) {
  spline_path_t p; spline_path_segment_t s[3];
  s[0] = spline_path_move(x, y); s[1] = spline_path_line(x, y); s[2] = spline_path_constant();
  if (spline_path_set_copy(&p, s, 3)) return;
  spline_path_get(&p, start, end, out);
  spline_path_free(p);
  free(p.segments);
}

/* arrays of arrays */
U void vp_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_size) {
  sp_time_t** out; sp_time_t n;
  if (sp_times_permutations(size, set, set_size, &out, &n).id) return;
  sp_times_array_free(out, n);
}
U void vp_compositions(sp_time_t sum) {
  sp_time_t** out; sp_time_t n; sp_time_t* sizes;
  if (sp_times_compositions(sum, &out, &n, &sizes).id) return;
  sp_times_array_free(out, n);
  free(sizes);
}
U void vp_replace(sp_time_t* in, sp_size_t n) {
  sp_sample_t* a; sp_time_t* b;
  if (sp_times_to_samples_replace(in, n, &a).id) { free(in); return; }
  if (sp_samples_to_times_replace(a, n, &b).id) { free(a); return; }
  free(b);
}

/* the library */
U void vp_library(uint16_t cpu_count, sp_channel_count_t channel_count, sp_time_t rate) {
  if (sp_initialize(cpu_count, channel_count, rate).id) return;
  sp_deinitialize();
}

/* events with memory of their own, in lists and groups that fail half way */
U status_t own_prepare(sp_event_t* e) {
  status_declare;
  sp_sample_t* a; sp_sample_t* b;
  sp_event_samples_srq(e, 3, &a);
  sp_event_samples_srq(e, 4, &b);
exit:
  if (status_is_failure) sp_event_memory_free(e);
  status_return;
}
U status_t own_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  if (!e->memory.used) { status.id = 1; }
  status_return;
}
U void vp_own_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_time_t a, sp_time_t b) {
  sp_event_list_t* l = 0;
  sp_event_t e = { 0 };
  e.prepare = own_prepare; e.generate = own_generate;
  e.start = a; e.end = b;
  if (sp_event_list_add(&l, e).id) return;
  if (sp_event_list_add(&l, e).id) { sp_event_list_free(&l); return; }
  sp_seq(start, end, out, &l);
  sp_event_list_free(&l);
}
U void vp_own_group(sp_time_t start, sp_time_t end, sp_block_t out, sp_time_t a, sp_time_t b) {
  sp_event_t g = { 0 }; sp_event_t* gp = &g;
  sp_event_t e = { 0 };
  sp_sample_t* m;
  e.prepare = own_prepare; e.generate = own_generate;
  e.start = a; e.end = b;
  sp_group_event(gp);
  if (!b) return;
  sp_group_add(gp, e);
  if (sp_samples_new(5, &m).id == 0 && sp_event_memory_add(gp, m).id) free(m);
  if ((g.prepare)(gp).id == 0) (g.generate)(start, end, out, gp);
  sp_group_free(gp);
}
U void vp_own_map(sp_map_generate_t f, sp_bool_t isolate, sp_time_t start, sp_time_t end, sp_block_t out) {
  sp_event_t e = { 0 }; sp_event_t* ep = &e;
  sp_map_event_config_t* c;
  if (sp_map_event_config_new(&c).id) return;
  c->event.prepare = own_prepare; c->event.generate = own_generate; c->event.end = end;
  c->map_generate = f; c->isolate = isolate;
  sp_map_event(ep, c);
  e.end = end;
  if (sp_event_memory_add(ep, c).id) { free(c); return; }
  e.free = 0;
  if ((e.prepare)(ep).id == 0) { (e.generate)(start, end, out, ep); }
  if (e.free) (e.free)(ep); else sp_event_memory_free(ep);
}
/* a prepared event that is released twice by its two owners: release is a no-op the second time */
U void vp_free_twice(void) {
  sp_event_t e = { 0 };
  if (own_prepare(&e).id) return;
  sp_event_memory_free(&e);
  sp_event_memory_free(&e);
}
U void vp_list_free_twice(sp_event_t a) {
  sp_event_list_t* l = 0;
  if (sp_event_list_add(&l, a).id) return;
  sp_event_list_free(&l);
  sp_event_list_free(&l);
}
/* filter states are used with growing and shrinking kernels */
U void vp_filter_use(sp_convolution_filter_ir_f_t f, void* a, void* b, uint8_t len, sp_sample_t* in, sp_time_t n, sp_sample_t* out) {
  sp_convolution_filter_state_t* s = 0;
  if (sp_convolution_filter(in, n, f, a, len, &s, out).id) { if (s) sp_convolution_filter_state_free(s); return; }
  sp_convolution_filter(in, n, f, b, len, &s, out);
  sp_convolution_filter_state_free(s);
}
/* the same file description is written, closed and used again */
U void vp_file_again(uint8_t* path, sp_channel_count_t channel_count, sp_time_t rate, sp_sample_t** samples, sp_time_t n) {
  sp_file_t f;
  if (sp_file_open_write(path, channel_count, rate, &f).id == 0) {
    sp_file_write(&f, samples, n);
    sp_file_write(&f, samples, n);
    sp_file_close_write(&f);
  }
  if (sp_file_open_read(path, &f).id == 0) sp_file_close_read(f);
}
/* random selections into memory of the right size */
U void vp_select_random(sp_time_t* a, sp_time_t n) {
  sp_time_t* out; sp_time_t size;
  if (sp_times_new(n, &out).id) return;
  sp_times_select_random(a, n, out, &size);
  free(out);
}
/* tasks and futures */
U void vp_futures(sph_future_f_t f, void* data) {
  sph_future_t a; sph_future_t b;
  if (sph_future_init(2)) return;
  sph_future_new(f, data, &a);
  sph_future_new(f, data, &b);
  sph_future_touch(&a);
  sph_future_touch(&b);
  sph_future_deinit();
}
