From 65128344b56768fc8d2a22e88706a365c3b75aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:31 +0000
Subject: [PATCH 01/43] fix: nested tree traverse must recognise leaves by
 body, not by radius

A cell whose critical radius is zero (coincident bodies, or a zero
distance to node radius ratio) was visited as a leaf with body index
TREE_NO_BODY, which indexed every array out of range.
---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From e13cc282c9603ace15b3f58b942e314d3999a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:37 +0000
Subject: [PATCH 02/43] fix: heap Barnes-Hut tree must be valid for any body
 count, not only powers of two

---
 nbody/nbody_engine_opencl.cl  |  4 ++--
 nbody/nbody_engine_opencl.cpp | 12 +++++++++---
 nbody/nbody_space_heap.cpp    | 26 +++++++++++++++++++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..a91118b 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_size, int points_count,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -468,7 +468,7 @@ __kernel void UpdateNodeBH(int level_size,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
 	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	if(idx >= 2 * level_size || idx >= points_count)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..b8cd4c0 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -108,6 +108,7 @@ typedef cl::make_kernel< cl_int, // Points count
 		> UpdateLeafBH;
 
 typedef cl::make_kernel< cl_int, // Level size
+		cl_int, // Points count
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -1046,20 +1047,25 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	// Inner nodes are [NBODY_HEAP_ROOT_INDEX, data_size). Update them level by level, bottom up
+	size_t	level_size = NBODY_HEAP_ROOT_INDEX;
+	while(2 * level_size < data_size)
+	{
+		level_size *= 2;
+	}
+	for(; level_size >= NBODY_HEAP_ROOT_INDEX; level_size /= 2)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
 		cl::NDRange	level_range(std::max(level_size, local_range[0]));
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_size, data_size,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..596f792 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -1,5 +1,18 @@
 #include "nbody_space_heap.h"
 
+namespace {
+//! Left subtree leaves count of a complete (heap ordered) binary tree with 'count' leaves
+size_t left_leaves_count(size_t count)
+{
+	size_t	full = 1;
+	while(2 * full <= count)
+	{
+		full *= 2;
+	}
+	return full / 2 + std::min(count - full, full / 2);
+}
+} //namespace
+
 nbody_space_heap::nbody_space_heap() :
 	m_distance_to_node_radius_ratio_sqr(0)
 {
@@ -49,10 +62,17 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	// Inner nodes are [NBODY_HEAP_ROOT_INDEX, count). Update them level by level, bottom up
+	size_t	level_begin = NBODY_HEAP_ROOT_INDEX;
+	while(2 * level_begin < count)
+	{
+		level_begin *= 2;
+	}
+	for(; level_begin >= NBODY_HEAP_ROOT_INDEX; level_begin /= 2)
 	{
+		size_t	level_end = std::min(2 * level_begin, count);
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_begin; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
@@ -146,7 +166,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	size_t	left_size = left_leaves_count(count);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 6f158a25e366b37bfd934fd6440a6403b9509336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 03/43] fix: fmaddn must assign the result even if all
 coefficients are zero

---
 nbody/nbody_engine.cpp        | 5 +++++
 nbody/nbody_engine_openmp.cpp | 8 +++++++-
 nbody/nbody_engine_simple.cpp | 8 +++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..6977893 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,11 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+
+	if(!a_initiated && a != b)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
diff --git a/nbody/nbody_engine_openmp.cpp b/nbody/nbody_engine_openmp.cpp
index 64bf366..120b121 100644
--- a/nbody/nbody_engine_openmp.cpp
+++ b/nbody/nbody_engine_openmp.cpp
@@ -120,9 +120,15 @@ void nbody_engine_openmp::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		return;
 	}
 
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
+
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	#pragma omp parallel for
 	for(size_t i = 0; i < count; ++i)
diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 6ef25f8..e64fff7 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -250,9 +250,15 @@ void nbody_engine_simple::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		return;
 	}
 
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
+
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	for(size_t i = 0; i < count; ++i)
 	{
-- 
2.43.0


From fdec09fdfdb907457a9b75030739340b000830b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 04/43] fix: Ahmad-Cohen engine must fill its neighbour lists
 before the first use at any step

---
 nbody/nbody_engine_ah.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..6cf43f4 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,9 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_full_recompute_rate == 0 ||
+	   m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 37b0344bcace25cf13dc4b221b52adf6d72471a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 05/43] fix: trapeze solver must evaluate the right side of a
 step at time t + dt

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..198ff4b 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -41,7 +41,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From fdaac7a68be4cd4e1f4aee67ea7e4f26dd3ff199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 06/43] fix: Bulirsch-Stoer solver must count one step per
 advise, not internal substeps

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..3587aed 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -95,6 +95,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 
 	nbody_engine::memory*	y = engine()->get_y();
 	nbcoord_t				t0(engine()->get_time());
+	size_t					step0(engine()->get_step());
 
 	engine()->copy_buffer(m_y0, y);
 
@@ -118,6 +119,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 	}
 
 	engine()->set_time(t0);
+	engine()->set_step(step0);
 	engine()->advise_time(dt);
 }
 
-- 
2.43.0


From 0d6790dab5653cb0ed02bb62d227c079ad546251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:45 +0000
Subject: [PATCH 07/43] fix: reset of Adams and implicit Runge-Kutta solvers
 must forget all the history

---
 nbody/nbody_solver_adams.cpp      | 1 +
 nbody/nbody_solver_rk_butcher.cpp | 9 ++++++---
 nbody/nbody_solver_rk_butcher.h   | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..6b267df 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -97,5 +97,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..29467a1 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_k_initiated(false)
 {
 }
 
@@ -87,6 +88,7 @@ void nbody_solver_rk_butcher::reset()
 	{
 		engine()->fill_buffer(m_tcorr_data, 0);
 	}
+	m_k_initiated = false;
 }
 
 const nbody_butcher_table* nbody_solver_rk_butcher::table() const
@@ -170,14 +172,15 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = !m_k_initiated;
+
+	m_k_initiated = true;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
 
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..b61421f 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	bool						m_k_initiated;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From 151545900a512e5551dcca909b8782a69f4bafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:01 +0000
Subject: [PATCH 08/43] fix: OpenCL fmaxabs must not require a body count
 multiple of four blocks

---
 nbody/nbody_engine_opencl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index b8cd4c0..a4be140 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1487,7 +1487,6 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 	size_t					device_data_size = problem_size() / device_count;
 	size_t					rdevice_data_size = rsize / device_count;
 	cl::NDRange				global_range(rsize);
-	cl::NDRange				local_range(4);
 	std::vector<cl::Event>	events;
 	smemory					out(sizeof(nbcoord_t)*rsize, d->m_devices);
 
@@ -1496,7 +1495,7 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 		size_t			offset = dev_n * device_data_size;
 		size_t			roffset = dev_n * rdevice_data_size;
 		data::devctx&	ctx(d->m_devices[dev_n]);
-		cl::EnqueueArgs	eargs(ctx.m_queue, global_range, local_range);
+		cl::EnqueueArgs	eargs(ctx.m_queue, global_range);
 		cl::Event		ev(ctx.m_fmaxabs(eargs, a->buffer(dev_n), offset,
 										 offset + device_data_size,
 										 out.buffer(dev_n), roffset));
-- 
2.43.0


From cea56fabed3741a3ee0a20cccee4e4f2b21e204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 09/43] fix: stream reader must read a frame again after seek
 to the same frame

---
 nbody/nbody_data_stream_reader.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..ef9c230 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -221,11 +221,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -243,6 +238,7 @@ int nbody_data_stream_reader::seek(size_t frame)
 			qDebug() << "Can't open file" << d->m_file.fileName() << d->m_file.errorString();
 			return -1;
 		}
+		d->m_file_n = i.file_n;
 	}
 
 	if(!d->m_file.seek(i.file_pos))
@@ -325,12 +321,13 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
-	if(d->m_current_frame < d->m_frames.size() - 1)
+	++d->m_current_frame;
+	if(d->m_current_frame < d->m_frames.size())
 	{
-		if(0 != seek(d->m_current_frame + 1))
+		if(0 != seek(d->m_current_frame))
 		{
-			qDebug() << "Seek to frame #" << d->m_current_frame + 1
-					 << "failed, but current #" << d->m_current_frame << "is OK";
+			qDebug() << "Seek to frame #" << d->m_current_frame
+					 << "failed, but previous is OK";
 		}
 	}
 
-- 
2.43.0


From 76dc1c0c9eafbcabc2cd8b218c3a483430c43a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 10/43] fix: stream reader must not keep header, colors and
 masses of a previous stream

---
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index ef9c230..b21b9fd 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -194,6 +194,11 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
+	d->m_colors_read = false;
+	d->m_masses_read = false;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
-- 
2.43.0


From 37c6eecbdbfd70cf58311defc018ae5ff71f34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 11/43] fix: stream writer must write a header to each new
 stream

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..1b21b38 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -178,6 +178,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From ccc9575073f9a1206e0fef7ffee34038f404afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:01 +0000
Subject: [PATCH 12/43] fix: stream writer must report write errors and never
 leave a torn index record

---
 nbody/nbody_data_stream.cpp | 58 +++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 1b21b38..2a68a74 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -11,7 +11,6 @@ struct nbody_data_stream::data
 {
 	size_t			m_file_n;
 	qint64			m_max_part_size;
-	QTextStream		m_idx_stream;
 	QFile			m_data;
 	QFile			m_idx;
 	QString			m_base_name;
@@ -32,7 +31,7 @@ struct nbody_data_stream::data
 		}
 		m_data.setFileName(make_dat_name(m_base_name, m_file_n));
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
-		if(!m_data.open(openmode))
+		if(!m_data.open(openmode | QFile::Unbuffered))
 		{
 			qDebug() << "Can't open file" << m_data.fileName() << m_data.errorString();
 			return -1;
@@ -48,20 +47,35 @@ struct nbody_data_stream::data
 		}
 		m_idx.setFileName(make_idx_name(m_base_name));
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
-		if(!m_idx.open(openmode))
+		if(!m_idx.open(openmode | QFile::Unbuffered))
 		{
 			qDebug() << "Can't open file" << m_idx.fileName() << m_idx.errorString();
 			return -1;
 		}
-		m_idx_stream.setDevice(&m_idx);
 		return 0;
 	}
 
-	int write_header(const nbody_data* bdata)
+	//! Write whole index record or nothing
+	int write_index(const QByteArray& record)
 	{
-		m_idx_stream << "#coord_size " << sizeof(nbcoord_t) << "\n";
-		m_idx_stream << "#body_count " << bdata->get_count() << "\n";
-		m_idx_stream << "#box_size " << bdata->get_box_size() << "\n";
+		qint64	pos(m_idx.pos());
+		if(record.size() != m_idx.write(record))
+		{
+			qDebug() << "Can't write file" << m_idx.fileName() << m_idx.errorString();
+			if(!m_idx.resize(pos))
+			{
+				m_idx.close();
+			}
+			return -1;
+		}
+		return 0;
+	}
+
+	int write_header(const nbody_data* bdata, QTextStream& idx_stream)
+	{
+		idx_stream << "#coord_size " << sizeof(nbcoord_t) << "\n";
+		idx_stream << "#body_count " << bdata->get_count() << "\n";
+		idx_stream << "#box_size " << bdata->get_box_size() << "\n";
 		{
 			QFile	col(make_col_name(m_base_name));
 			if(!col.open(QFile::WriteOnly))
@@ -70,7 +84,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -84,13 +98,12 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
 			}
 		}
-		m_header_written = true;
 		return 0;
 	}
 };
@@ -118,7 +131,10 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	if((!d->m_header_written) && 0 != d->write_header(bdata))
+	QByteArray	idx_record;
+	QTextStream	idx_stream(&idx_record);
+
+	if((!d->m_header_written) && 0 != d->write_header(bdata, idx_stream))
 	{
 		qDebug() << "Write header failed";
 		return -1;
@@ -149,14 +165,18 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
-
-	d->m_idx_stream << bdata->get_step() << get_idx_separator()
-					<< bdata->get_time() << get_idx_separator()
-					<< d->m_file_n << get_idx_separator()
-					<< fpos << "\n";
+	idx_stream << bdata->get_step() << get_idx_separator()
+			   << bdata->get_time() << get_idx_separator()
+			   << d->m_file_n << get_idx_separator()
+			   << fpos << "\n";
+	idx_stream.flush();
 
-	d->m_idx_stream.flush();
+	if(0 != d->write_index(idx_record))
+	{
+		qDebug() << "Write index failed";
+		return -1;
+	}
+	d->m_header_written = true;
 
 	return 0;
 }
-- 
2.43.0


From 211c8694d062bcbd549f1051610325d172495538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:01 +0000
Subject: [PATCH 13/43] fix: stream index must keep the time of a frame with
 full precision

---
 nbody/nbody_data_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 2a68a74..52e2234 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -6,6 +6,7 @@
 #include <QDir>
 #include <QTextStream>
 #include <QDebug>
+#include <limits>
 
 struct nbody_data_stream::data
 {
@@ -133,6 +134,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 
 	QByteArray	idx_record;
 	QTextStream	idx_stream(&idx_record);
+	idx_stream.setRealNumberPrecision(std::numeric_limits<nbcoord_t>::digits10);
 
 	if((!d->m_header_written) && 0 != d->write_header(bdata, idx_stream))
 	{
-- 
2.43.0


From 821d7f657f1b45619d42dde916285ec9cd8ab023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:01 +0000
Subject: [PATCH 14/43] fix: stream must survive an index record torn by a
 crash

---
 nbody/nbody_data_stream.cpp        | 23 +++++++++++++++++++++++
 nbody/nbody_data_stream_reader.cpp |  6 +++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 52e2234..6d305a3 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -47,6 +47,10 @@ struct nbody_data_stream::data
 			m_idx.close();
 		}
 		m_idx.setFileName(make_idx_name(m_base_name));
+		if(append && 0 != remove_torn_record())
+		{
+			return -1;
+		}
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
 		if(!m_idx.open(openmode | QFile::Unbuffered))
 		{
@@ -56,6 +60,25 @@ struct nbody_data_stream::data
 		return 0;
 	}
 
+	//! Last record without line end was not completely written. Remove it before append
+	int remove_torn_record()
+	{
+		if(!m_idx.open(QFile::ReadWrite))
+		{
+			qDebug() << "Can't open file" << m_idx.fileName() << m_idx.errorString();
+			return -1;
+		}
+		qint64	sz(m_idx.readAll().lastIndexOf('\n') + 1);
+		if(sz != m_idx.size() && !m_idx.resize(sz))
+		{
+			qDebug() << "Can't resize file" << m_idx.fileName() << m_idx.errorString();
+			m_idx.close();
+			return -1;
+		}
+		m_idx.close();
+		return 0;
+	}
+
 	//! Write whole index record or nothing
 	int write_index(const QByteArray& record)
 	{
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index b21b9fd..f1b8560 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -127,7 +127,11 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		return -1;
 	}
 
-	QTextStream	stream(&idx);
+	QByteArray	idx_data(idx.readAll());
+	// Last record without line end was not completely written. Skip it
+	idx_data.truncate(idx_data.lastIndexOf('\n') + 1);
+
+	QTextStream	stream(idx_data);
 
 	while(!stream.atEnd())
 	{
-- 
2.43.0


From 37b538b01015464eb8e2847ef941f9e1b937dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:01 +0000
Subject: [PATCH 15/43] fix: stream reader must restore the box size

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..49350a0 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -245,6 +245,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t s)
+{
+	m_box_size = s;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..c84660c 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t s);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index f1b8560..45452d9 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -330,6 +330,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
+	bdata->set_box_size(d->m_box_size);
 	++d->m_current_frame;
 	if(d->m_current_frame < d->m_frames.size())
 	{
-- 
2.43.0


From 7c5fcb99caae27ca285105db4c082f0344eb529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 16/43] fix: resize to an impossible body count must fail, not
 throw

---
 nbody/nbody_data.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 49350a0..307abf2 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -154,11 +154,20 @@ void nbody_data::dump_body(size_t n)
 
 bool nbody_data::resize(size_t s)
 {
-	m_vertites.resize(s);
-	m_velosites.resize(s);
-	m_mass.resize(s);
-	m_color.resize(s);
-	m_radius.resize(s);
+	try
+	{
+		m_vertites.resize(s);
+		m_velosites.resize(s);
+		m_mass.resize(s);
+		m_color.resize(s);
+		m_radius.resize(s);
+	}
+	catch(const std::exception& e)
+	{
+		qDebug() << "Can't resize to" << s << e.what();
+		clear();
+		return false;
+	}
 	m_count = s;
 	return true;
 }
@@ -565,7 +574,7 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 	if(!resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
-		return 0;
+		return false;
 	}
 
 	qDebug() << "Zeno stars count is" << count;
-- 
2.43.0


From ad82158bf98931b750feff40c034495a29b937b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 17/43] fix: Zeno loader must reject columns that are not
 numbers

---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 307abf2..21790d6 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -587,7 +587,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -602,9 +608,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = {};
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(ok),
+									   pos_line[1].toDouble(ok + 1),
+									   pos_line[2].toDouble(ok + 2));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert position to double" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -620,9 +632,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = {};
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(ok),
+										vel_line[1].toDouble(ok + 1),
+										vel_line[2].toDouble(ok + 2));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert velosity to double" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From bdda25affc7fc448d8235357f78e1da95fed6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 18/43] fix: resuming a stream with only the initial frame must
 not record it twice

---
 nbody/nbody_data_stream.cpp | 10 +++++++++-
 nbody/nbody_data_stream.h   |  2 ++
 nbody/nbody_solver.cpp      |  3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 6d305a3..727383a 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -16,11 +16,13 @@ struct nbody_data_stream::data
 	QFile			m_idx;
 	QString			m_base_name;
 	bool			m_header_written;
+	bool			m_append;
 
 	data() :
 		m_file_n(0),
 		m_max_part_size(1024 * 1024 * 1024),
-		m_header_written(false)
+		m_header_written(false),
+		m_append(false)
 	{
 	}
 
@@ -215,6 +217,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	d->m_base_name = name;
 	d->m_max_part_size = max_part_size;
 	bool append_mode = append_to != NULL;
+	d->m_append = append_mode;
 	if(append_mode)
 	{
 		d->m_file_n = append_to->get_last_file_n();
@@ -249,6 +252,11 @@ void nbody_data_stream::close()
 	d->m_data.close();
 }
 
+bool nbody_data_stream::is_append() const
+{
+	return d->m_append;
+}
+
 QString nbody_data_stream::make_idx_name(const QString& file_base_name)
 {
 	return file_base_name + ".idx";
diff --git a/nbody/nbody_data_stream.h b/nbody/nbody_data_stream.h
index 9a4fa6d..25462cb 100644
--- a/nbody/nbody_data_stream.h
+++ b/nbody/nbody_data_stream.h
@@ -23,6 +23,8 @@ public:
 	int open(const QString& file_base_name, qint64 max_part_size,
 			 const nbody_data_stream_reader* append_to = NULL);
 	void close();
+	//! Stream was opened to continue a recorded one
+	bool is_append() const;
 
 	static QString make_idx_name(const QString& file_base_name);
 	static QString make_dat_name(const QString& file_base_name, size_t part_n);
diff --git a/nbody/nbody_solver.cpp b/nbody/nbody_solver.cpp
index 1373124..41b397a 100644
--- a/nbody/nbody_solver.cpp
+++ b/nbody/nbody_solver.cpp
@@ -59,7 +59,8 @@ int nbody_solver::run(nbody_data* data, nbody_data_stream* stream, nbcoord_t max
 	nbcoord_t   last_check = data->get_time();
 	nbcoord_t   last_dump = last_check;
 
-	if(stream != NULL && dump_dt > 0 && last_dump <= 0)
+	// Stream to append already ends with the initial state
+	if(stream != NULL && dump_dt > 0 && last_dump <= 0 && !stream->is_append())
 	{
 		m_engine->get_data(data);
 		if(0 != stream->write(data))
-- 
2.43.0


From 2719f4a221a708d5b070b3402b4b573451f8bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:57 +0000
Subject: [PATCH 19/43] fix: block engine must accept any body count, not only
 whole blocks

---
 nbody/nbody_engine_block.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..51b06ad 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,4 +1,5 @@
 #include "nbody_engine_block.h"
+#include <algorithm>
 #include <omp.h>
 #include <QDebug>
 
@@ -57,8 +58,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_x[block];
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
+		const size_t		block1 = std::min(block, count - n1);
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -75,8 +77,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
+			const size_t		block2 = std::min(block, count - n2);
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != block2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +89,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != block1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != block2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +115,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From 632db50ffe0916a918b345303fe544a106d8249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:59 +0000
Subject: [PATCH 20/43] fix: Bulirsch-Stoer solver must extrapolate at the last
 level, also with one or two levels

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index 3587aed..cf8a453 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -105,13 +105,14 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 //		g << level << engine()->get_time() << t0;
 		compute_substep(level, dt, t0);
 
-		if(level < 2)
+		bool		last_level = (level == m_max_level - 1);
+		if(level < 2 && !last_level)
 		{
 			continue;
 		}
 		nbcoord_t	maxdiff = m_extrapolator->estimate_error(level);
 //		g << engine()->get_time() << t0 << dt << maxdiff;
-		if(maxdiff < m_error_threshold || level == m_max_level - 1)
+		if(maxdiff < m_error_threshold || last_level)
 		{
 			m_extrapolator->extrapolate(level, y);
 			break;
-- 
2.43.0


From 31ddb25f50564959662c643c4a6ff2f2dcedea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:59 +0000
Subject: [PATCH 21/43] fix: refuse Adams solvers with a rank outside 1...5 or
 with an Adams starter

---
 nbody/nbody_solvers.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..61cb58a 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -20,15 +20,20 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	nbody_solver*	solver = NULL;
 	if(type == "adams")
 	{
+		const int		rank = param.value("rank", 1).toInt();
+		const QString	starter_type(param.value("starter_solver", "euler").toString());
+		if(rank < 1 || rank > 5 || starter_type == type)
+		{
+			return NULL;
+		}
 		QVariantMap	starter_param(param);
-		starter_param["solver"] = param.value("starter_solver", "euler");
+		starter_param["solver"] = starter_type;
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
 			return NULL;
 		}
-		solver = new nbody_solver_adams(starter, param.value("rank", 1).toInt(),
-										param.value("correction", false).toBool());
+		solver = new nbody_solver_adams(starter, rank, param.value("correction", false).toBool());
 	}
 	else if(type == "bs")
 	{
-- 
2.43.0


From f910e5c3c13910cebc6555e044b1ab20da44151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:24 +0000
Subject: [PATCH 22/43] fix: Adams solver must not crash when destroyed before
 its first step

---
 nbody/nbody_solver.h         | 2 +-
 nbody/nbody_solver_adams.cpp | 7 ++++++-
 nbody/nbody_solver_adams.h   | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_solver.h b/nbody/nbody_solver.h
index fbe7c95..c20886b 100644
--- a/nbody/nbody_solver.h
+++ b/nbody/nbody_solver.h
@@ -21,7 +21,7 @@ class NBODY_DLL nbody_solver
 public:
 	nbody_solver();
 	virtual ~nbody_solver();
-	void set_engine(nbody_engine*);
+	virtual void set_engine(nbody_engine*);
 	nbody_engine* engine();
 	void set_time_step(nbcoord_t min_step, nbcoord_t max_step);
 	nbcoord_t get_min_step() const;
diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index 6b267df..2f0e9a3 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -27,6 +27,12 @@ const char* nbody_solver_adams::type_name() const
 	return "nbody_solver_adams";
 }
 
+void nbody_solver_adams::set_engine(nbody_engine* e)
+{
+	nbody_solver::set_engine(e);
+	m_starter->set_engine(e);
+}
+
 void nbody_solver_adams::advise(nbcoord_t dt)
 {
 	const nbcoord_t		a1[1] = { 1_f };
@@ -44,7 +50,6 @@ void nbody_solver_adams::advise(nbcoord_t dt)
 
 	if(m_f.empty())
 	{
-		m_starter->set_engine(engine());
 		m_f = engine()->create_buffers(sizeof(nbcoord_t) * ps, m_rank);
 		if(m_correction)
 		{
diff --git a/nbody/nbody_solver_adams.h b/nbody/nbody_solver_adams.h
index 17501bd..1a73082 100644
--- a/nbody/nbody_solver_adams.h
+++ b/nbody/nbody_solver_adams.h
@@ -20,6 +20,7 @@ public:
 								bool corr = false);
 	~nbody_solver_adams();
 	const char* type_name() const override;
+	void set_engine(nbody_engine*) override;
 	void advise(nbcoord_t dt) override;
 	void print_info() const override;
 	void reset() override;
-- 
2.43.0


From d4caac54199870853feb74add9d0c5605c801bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:32 +0000
Subject: [PATCH 23/43] fix: Berrut extrapolation must use all the filled
 tables, including the last one

---
 nbody/nbody_extrapolator.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nbody/nbody_extrapolator.cpp b/nbody/nbody_extrapolator.cpp
index 0762d4d..173a7e3 100644
--- a/nbody/nbody_extrapolator.cpp
+++ b/nbody/nbody_extrapolator.cpp
@@ -70,7 +70,7 @@ nbcoord_t nbody_extrapolator_berrut::estimate_error(size_t level) const
 	}
 
 	engine()->fill_buffer(m_diff, 0_f);
-	engine()->fmaddn_inplace(m_diff, m_table, w1.data(), level);
+	engine()->fmaddn_inplace(m_diff, m_table, w1.data(), w1.size());
 	engine()->fmaxabs(m_diff, maxdiff);
 	return maxdiff;
 }
@@ -79,23 +79,19 @@ void nbody_extrapolator_berrut::extrapolate(size_t level, nbody_engine::memory*
 {
 	const std::vector<nbcoord_t>	w(weights(level));
 	engine()->fill_buffer(ext_y, 0_f);
-	if(level == 0)
-	{
-		return;
-	}
-	engine()->fmaddn_inplace(ext_y, m_table, w.data(), level);
+	engine()->fmaddn_inplace(ext_y, m_table, w.data(), w.size());
 }
 
 std::vector<nbcoord_t> nbody_extrapolator_berrut::weights(size_t level) const
 {
 	std::vector<nbcoord_t>	w;
-	w.resize(level);
-	for(size_t n = 0; n != level; ++n)
+	w.resize(level + 1);	// Tables 0...level are filled
+	for(size_t n = 0; n != w.size(); ++n)
 	{
 		w[n] = std::pow(-1, n + 1) * sub_steps_count(n);
 	}
 	auto sum = std::accumulate(w.begin(), w.end(), 0_f);
-	for(size_t n = 0; n != level; ++n)
+	for(size_t n = 0; n != w.size(); ++n)
 	{
 		w[n] /= sum;
 	}
-- 
2.43.0


From f86dff9c63c68c8fdca2eb132c634f1ce9fbf890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:28 +0000
Subject: [PATCH 24/43] fix: saving bodies must report a write error

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 21790d6..e02b2cb 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -450,6 +450,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok || !file.flush())
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From a4614d4c78af585e93dcfc0119aeca10279dd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 25/43] fix: loading bodies must fail on a read error, not loop
 endlessly

---
 nbody/nbody_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index e02b2cb..cfd4a07 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -479,6 +479,11 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 	for(size_t line_n = 0; !s.atEnd(); ++line_n)
 	{
 		QString	line(s.readLine());
+		if(file.error() != QFile::NoError)
+		{
+			qDebug() << "Can't read file" << fn << file.errorString();
+			return false;
+		}
 		int		comment_index(line.indexOf(comment));
 		if(comment_index >= 0)
 		{
-- 
2.43.0


From cf02e2653731025426f433b797daf3be4795b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:46 +0000
Subject: [PATCH 26/43] fix: a read error of the index file must make load and
 append fail

---
 nbody/nbody_data_stream.cpp        | 6 ++++++
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 727383a..674a6a0 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -71,6 +71,12 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		qint64	sz(m_idx.readAll().lastIndexOf('\n') + 1);
+		if(m_idx.error() != QFile::NoError)
+		{
+			qDebug() << "Can't read file" << m_idx.fileName() << m_idx.errorString();
+			m_idx.close();
+			return -1;
+		}
 		if(sz != m_idx.size() && !m_idx.resize(sz))
 		{
 			qDebug() << "Can't resize file" << m_idx.fileName() << m_idx.errorString();
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 45452d9..91e5d78 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -128,6 +128,11 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 	}
 
 	QByteArray	idx_data(idx.readAll());
+	if(idx.error() != QFile::NoError)
+	{
+		qDebug() << "Can't read index file" << idx.fileName() << idx.errorString();
+		return -1;
+	}
 	// Last record without line end was not completely written. Skip it
 	idx_data.truncate(idx_data.lastIndexOf('\n') + 1);
 
-- 
2.43.0


From 8dcc4bbbd703555384cd8b540ec2f09b17a89fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:43 +0000
Subject: [PATCH 27/43] fix: stream reader must fail if masses or colors can't
 be read

---
 nbody/nbody_data_stream_reader.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 91e5d78..ce4d24f 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -333,6 +333,24 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
+	if(!d->m_colors_read)
+	{
+		if(0 != d->read_colors(bdata))
+		{
+			return -1;
+		}
+		d->m_colors_read = true;
+	}
+
+	if(!d->m_masses_read)
+	{
+		if(0 != d->read_masses(bdata))
+		{
+			return -1;
+		}
+		d->m_masses_read = true;
+	}
+
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
 	bdata->set_box_size(d->m_box_size);
@@ -346,17 +364,6 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		}
 	}
 
-	if(!d->m_colors_read)
-	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
-	}
-
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
-	}
-
-
 	return 0;
 }
 
-- 
2.43.0


From 5991243133f17364a465eb267bb14b4be17d1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:34 +0000
Subject: [PATCH 28/43] fix: an index file that can be read only in part must
 make load and append fail

---
 nbody/nbody_data_stream.cpp        | 5 +++--
 nbody/nbody_data_stream_reader.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 674a6a0..a22bdad 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -70,8 +70,9 @@ struct nbody_data_stream::data
 			qDebug() << "Can't open file" << m_idx.fileName() << m_idx.errorString();
 			return -1;
 		}
-		qint64	sz(m_idx.readAll().lastIndexOf('\n') + 1);
-		if(m_idx.error() != QFile::NoError)
+		const QByteArray	idx_data(m_idx.readAll());
+		qint64				sz(idx_data.lastIndexOf('\n') + 1);
+		if(m_idx.error() != QFile::NoError || idx_data.size() != m_idx.size())
 		{
 			qDebug() << "Can't read file" << m_idx.fileName() << m_idx.errorString();
 			m_idx.close();
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index ce4d24f..30ef872 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -127,8 +127,9 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		return -1;
 	}
 
-	QByteArray	idx_data(idx.readAll());
-	if(idx.error() != QFile::NoError)
+	const qint64	idx_size(idx.size());
+	QByteArray		idx_data(idx.readAll());
+	if(idx.error() != QFile::NoError || idx_data.size() < idx_size)
 	{
 		qDebug() << "Can't read index file" << idx.fileName() << idx.errorString();
 		return -1;
-- 
2.43.0


From e0c1bce9063232c55777e33dfef9158e9db54310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:47 +0000
Subject: [PATCH 29/43] fix: a Zeno file too small for its body count must be
 rejected before allocation

---
 nbody/nbody_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index cfd4a07..301ebef 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -583,6 +583,11 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 	}
+	if(!file.isSequential() && count > static_cast<size_t>(file.size()))
+	{
+		qDebug() << "File" << fn << "is too small for body count" << count;
+		return false;
+	}
 	if(!resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
-- 
2.43.0


From 8c65c133aecc793fe64d404b05b5846cc5382c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:11 +0000
Subject: [PATCH 30/43] fix: command line option value may contain '='

---
 nbody/nbody_arg_parser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nbody/nbody_arg_parser.cpp b/nbody/nbody_arg_parser.cpp
index 92b4b8e..c278829 100644
--- a/nbody/nbody_arg_parser.cpp
+++ b/nbody/nbody_arg_parser.cpp
@@ -1,6 +1,5 @@
 #include "nbody_arg_parser.h"
 #include <QDebug>
-#include <QStringList>
 
 QVariantMap nbody_parse_arguments(int argc, char** argv)
 {
@@ -15,13 +14,13 @@ QVariantMap nbody_parse_arguments(int argc, char** argv)
 			continue;
 		}
 
-		QStringList	p(arg.mid(arg_prefix.length()).split("="));
-		if(p.size() != 2)
+		int		name_end(arg.indexOf('=')); // Value may contain '=' too
+		if(name_end < 0)
 		{
 			qDebug() << "Invalid argument format" << arg;
 			continue;
 		}
-		param[p[0]] = p[1];
+		param[arg.mid(arg_prefix.length(), name_end - arg_prefix.length())] = arg.mid(name_end + 1);
 	}
 
 	return param;
-- 
2.43.0


From 4fc0611023afac1eec9f62b42df55cce6bd33dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 31/43] fix: player read past the end of velocity color table

---
 player/wgt_nbody_view.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index e2da9e5..14f9615 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -134,7 +134,7 @@ static nbcolor_t get_color(nbcoord_t x)
 		nbcolor_t(1.0f, 0.0f, 0.0f, 1.0f)
 	};
 	size_t	lut_len = sizeof(lut) / sizeof(lut[0]);
-	if(x <= 0)
+	if(!(x > 0))
 	{
 		return lut[0];
 	}
@@ -142,7 +142,7 @@ static nbcolor_t get_color(nbcoord_t x)
 	{
 		return lut[lut_len - 1];
 	}
-	x *= lut_len;
+	x *= lut_len - 1;
 
 	size_t		i = static_cast<size_t>(ceil(x));
 	nbcoord_t	w = i - x;
-- 
2.43.0


From e00eeedbe3ebe3f2b22d637eff97bf21b7d14542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:25 +0000
Subject: [PATCH 32/43] fix: player did not show the first frame until the
 timeline was moved

---
 player/wgt_nbody_player.cpp         | 2 ++
 player/wgt_nbody_player_control.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index b19b37f..3052f24 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -50,6 +50,8 @@ wgt_nbody_player::wgt_nbody_player(nbody_data_stream_reader* stream,
 			this, SLOT(on_update_view()));
 	connect(m_view, SIGNAL(stars_size_range_changed(double, double, double)),
 			m_control, SLOT(on_stars_size_range_changed(double, double, double)));
+
+	on_update_data();
 }
 
 wgt_nbody_player::~wgt_nbody_player()
diff --git a/player/wgt_nbody_player_control.cpp b/player/wgt_nbody_player_control.cpp
index 6b43d16..c41958b 100644
--- a/player/wgt_nbody_player_control.cpp
+++ b/player/wgt_nbody_player_control.cpp
@@ -107,6 +107,7 @@ wgt_nbody_player_control::wgt_nbody_player_control(QWidget* parent, const nbody_
 	connect(m_color_from_velosity, SIGNAL(triggered(bool)), this, SIGNAL(color_from_velosity_changed()));
 	connect(m_show_box, SIGNAL(triggered(bool)), this, SIGNAL(show_box_changed()));
 
+	on_frame_number_updated();
 	on_finished();
 }
 
-- 
2.43.0


From fad7c0748bb47895f41afb6ff8880e7174ee25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 33/43] fix: player cut off stars of small and large universes
 and when zoomed out

---
 player/wgt_nbody_view.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index 14f9615..b88fd5a 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -278,8 +278,9 @@ void wgt_nbody_view::setup_projection(GLsizei width, GLsizei height, const nbver
 	glLoadIdentity();
 
 	GLfloat aspect = static_cast<GLfloat>(height) / static_cast<GLfloat>(width);
-	GLfloat	near_z = 1.0f;
-	GLfloat	far_z = 1000.0f;
+	// Depth range must cover the whole view box for any box size and any scale
+	GLdouble	far_z = static_cast<GLdouble>((center - camera_position).length()) + (m_box_max - m_box_min).length();
+	GLdouble	near_z = far_z * 1e-4;
 
 	gluPerspective(60, 1.0 / aspect, near_z, far_z);
 	gluLookAt(camera_position.x, camera_position.y, camera_position.z,
-- 
2.43.0


From c3c8cca7a73f1f1ea7533f7d8e625308e845975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:06 +0000
Subject: [PATCH 34/43] fix: failed read of a stream frame left a mix of two
 frames in destination

---
 nbody/nbody_data_stream_reader.cpp | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 30ef872..cd9f8be 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -4,6 +4,7 @@
 #include <vector>
 #include <map>
 #include <limits>
+#include <algorithm>
 #include <QFile>
 #include <QTextStream>
 #include <QDebug>
@@ -71,7 +72,7 @@ struct nbody_data_stream_reader::data
 		}
 	}
 
-	int read_colors(nbody_data* bdata)
+	int read_colors(std::vector<nbcolor_t>& out)
 	{
 		QFile	col(nbody_data_stream::make_col_name(m_file_base_name));
 		if(!col.open(QFile::ReadOnly))
@@ -79,8 +80,8 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << col.fileName() << col.errorString();
 			return -1;
 		}
-		qint64		col_sz(sizeof(nbcolor_t)*bdata->get_count());
-		if(col_sz != col.read(reinterpret_cast<char*>(bdata->get_color()), col_sz))
+		qint64		col_sz(sizeof(nbcolor_t)*out.size());
+		if(col_sz != col.read(reinterpret_cast<char*>(out.data()), col_sz))
 		{
 			qDebug() << "Can't read file" << col.fileName() << col.errorString();
 			return -1;
@@ -88,7 +89,7 @@ struct nbody_data_stream_reader::data
 		return 0;
 	}
 
-	int read_masses(nbody_data* bdata)
+	int read_masses(std::vector<nbcoord_t>& out)
 	{
 		QFile	mass(nbody_data_stream::make_mass_name(m_file_base_name));
 		if(!mass.open(QFile::ReadOnly))
@@ -96,8 +97,8 @@ struct nbody_data_stream_reader::data
 			qDebug() << "Can't open file" << mass.fileName() << mass.errorString();
 			return -1;
 		}
-		qint64		mass_sz(sizeof(nbcoord_t)*bdata->get_count());
-		if(mass_sz != mass.read(reinterpret_cast<char*>(bdata->get_mass()), mass_sz))
+		qint64		mass_sz(sizeof(nbcoord_t)*out.size());
+		if(mass_sz != mass.read(reinterpret_cast<char*>(out.data()), mass_sz))
 		{
 			qDebug() << "Can't read file" << mass.fileName() << mass.errorString();
 			return -1;
@@ -320,35 +321,45 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 	qint64				fpos(d->m_file.pos());
 	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
 	const data::item&	frame(d->m_frames[ d->m_current_frame ]);
+	// Destination must not be changed if some part of frame can't be read
+	std::vector<nbvertex_t>	vertites(bdata->get_count());
+	std::vector<nbvertex_t>	velosites(bdata->get_count());
+	std::vector<nbcolor_t>	colors(bdata->get_count());
+	std::vector<nbcoord_t>	masses(bdata->get_count());
 
-	if(sz != d->m_file.read(reinterpret_cast<char*>(bdata->get_vertites()), sz))
+	if(sz != d->m_file.read(reinterpret_cast<char*>(vertites.data()), sz))
 	{
 		qDebug() << "Can't read file" << d->m_file.fileName()
 				 << d->m_file.errorString() << "from pos" << fpos;
 		return -1;
 	}
-	if(sz != d->m_file.read(reinterpret_cast<char*>(bdata->get_velosites()), sz))
+	if(sz != d->m_file.read(reinterpret_cast<char*>(velosites.data()), sz))
 	{
 		qDebug() << "Can't read file" << d->m_file.fileName()
 				 << d->m_file.errorString() << "from pos" << fpos + sz;
 		return -1;
 	}
 
+	if(!d->m_colors_read && 0 != d->read_colors(colors))
+	{
+		return -1;
+	}
+
+	if(!d->m_masses_read && 0 != d->read_masses(masses))
+	{
+		return -1;
+	}
+
+	std::copy(vertites.begin(), vertites.end(), bdata->get_vertites());
+	std::copy(velosites.begin(), velosites.end(), bdata->get_velosites());
 	if(!d->m_colors_read)
 	{
-		if(0 != d->read_colors(bdata))
-		{
-			return -1;
-		}
+		std::copy(colors.begin(), colors.end(), bdata->get_color());
 		d->m_colors_read = true;
 	}
-
 	if(!d->m_masses_read)
 	{
-		if(0 != d->read_masses(bdata))
-		{
-			return -1;
-		}
+		std::copy(masses.begin(), masses.end(), bdata->get_mass());
 		d->m_masses_read = true;
 	}
 
-- 
2.43.0


From 3d8e2c10b4f6c3d47e6b13857de37f694afca20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 35/43] fix: player view scale could be set to zero

---
 player/wgt_nbody_player_control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/wgt_nbody_player_control.cpp b/player/wgt_nbody_player_control.cpp
index c41958b..f631cbc 100644
--- a/player/wgt_nbody_player_control.cpp
+++ b/player/wgt_nbody_player_control.cpp
@@ -53,7 +53,7 @@ wgt_nbody_player_control::wgt_nbody_player_control(QWidget* parent, const nbody_
 	m_stars_size->setValue(size_range[0]);
 	m_stars_size->setToolTip(tr("Stars size"));
 
-	m_scale->setRange(0, 10000);
+	m_scale->setRange(0.01, 10000);
 	m_scale->setValue(100);
 	m_scale->setSuffix("%");
 	m_scale->setToolTip(tr("View scale"));
-- 
2.43.0


From 2eea2a29ac708c7e153a8bd870bfad6cb87383f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 36/43] fix: closing of the player window during a record led
 to crash

---
 player/wgt_nbody_player.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index 3052f24..96d48d8 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -127,6 +127,8 @@ void wgt_nbody_player::on_start_record()
 	QProgressDialog	progress(this);
 	QElapsedTimer	timer;
 
+	// Player window can't be closed until record is done
+	progress.setWindowModality(Qt::WindowModal);
 	progress.setRange(0, static_cast<int>(m_stream->get_frame_count()));
 	progress.show();
 	timer.start();
-- 
2.43.0


From 0205c49dba15f6eb0c6847fe346ce4861e4d3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 37/43] fix: lines of recorded video frame were shifted when
 its width was not a multiple of four

---
 player/nbody_frame_compressor_opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/nbody_frame_compressor_opencv.cpp b/player/nbody_frame_compressor_opencv.cpp
index ab43ba1..0b0d226 100644
--- a/player/nbody_frame_compressor_opencv.cpp
+++ b/player/nbody_frame_compressor_opencv.cpp
@@ -42,7 +42,7 @@ void nbody_frame_compressor_opencv::push_frame(const QImage& frame, size_t)
 	}
 
 	QImage			rgb(frame.convertToFormat(QImage::Format_RGB888).rgbSwapped());
-	const cv::Mat	img(size, CV_8UC3, const_cast<uchar*>(rgb.bits()));
+	const cv::Mat	img(size, CV_8UC3, const_cast<uchar*>(rgb.bits()), static_cast<size_t>(rgb.bytesPerLine()));
 
 	d->m_writer.write(img);
 }
-- 
2.43.0


From bc9de41d7ac8f4291487e1ff13fc054d2e12025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 38/43] fix: player showed undefined errors of angular momentum
 and energy

---
 player/wgt_nbody_view.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index b88fd5a..27967ca 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -344,11 +344,11 @@ void wgt_nbody_view::paintGL(QPaintDevice* pd, GLsizei width, GLsizei height, qr
 	{
 		p.drawText(20, 80, QString("dP    = %1 %").arg(m_data->get_impulce_err(), 3, 'e', 2));
 	}
-	if(qIsFinite(m_data->get_impulce_err()))
+	if(qIsFinite(m_data->get_impulce_moment_err()))
 	{
 		p.drawText(20, 100, QString("dL    = %1 %").arg(m_data->get_impulce_moment_err(), 3, 'e', 2));
 	}
-	if(qIsFinite(m_data->get_impulce_err()))
+	if(qIsFinite(m_data->get_energy_err()))
 	{
 		p.drawText(20, 120, QString("dE    = %1 %").arg(m_data->get_energy_err(), 3, 'e', 2));
 	}
-- 
2.43.0


From 29f4e1c1240d239654cfb59772b6ceae0fcbda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 39/43] fix: PNG frames were lost if name of destination
 contains place markers like %1

---
 player/nbody_frame_compressor_image.cpp | 5 ++---
 player/nbody_frame_compressor_image.h   | 1 -
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/player/nbody_frame_compressor_image.cpp b/player/nbody_frame_compressor_image.cpp
index a475447..b14c247 100644
--- a/player/nbody_frame_compressor_image.cpp
+++ b/player/nbody_frame_compressor_image.cpp
@@ -22,8 +22,6 @@ bool nbody_frame_compressor_image::set_destination(const QString& d)
 
 	m_destination = d;
 
-	m_name_tmpl = d + "/%1.png";
-
 	return true;
 }
 
@@ -34,7 +32,8 @@ static bool frame_writer(const QImage& img, const QString& fname)
 
 void nbody_frame_compressor_image::push_frame(const QImage& frame, size_t frame_n)
 {
-	QString		frame_name(m_name_tmpl.arg(frame_n, 8, 10,  QChar('0')));
+	// Destination may contain place markers by itself
+	QString		frame_name(m_destination + QString("/%1.png").arg(frame_n, 8, 10,  QChar('0')));
 
 	m_results << QtConcurrent::run(frame_writer, frame, frame_name);
 
diff --git a/player/nbody_frame_compressor_image.h b/player/nbody_frame_compressor_image.h
index 846618d..36326c1 100644
--- a/player/nbody_frame_compressor_image.h
+++ b/player/nbody_frame_compressor_image.h
@@ -9,7 +9,6 @@
 class nbody_frame_compressor_image : public nbody_frame_compressor
 {
 	QString					m_destination;
-	QString					m_name_tmpl;
 	QList< QFuture<bool> >	m_results;
 public:
 	nbody_frame_compressor_image();
-- 
2.43.0


From c90cd0a9ced6a0ea5ee0dc48f664eab8f6041925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:47 +0000
Subject: [PATCH 40/43] fix: CUDA engines must refuse device counts that are
 not a power of two

---
 nbody/nbody_engine_cuda.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index aaac309..f4b4a6d 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -611,6 +611,13 @@ int nbody_engine_cuda::select_devices(const QString& devices_str)
 		device_ids.push_back(dev_id);
 	}
 
+	// Devices are synchronized by pairwise exchange
+	if((device_ids.size() & (device_ids.size() - 1)) != 0)
+	{
+		qDebug() << "Device count must be power of TWO. Selected" << device_ids.size() << "device(s)";
+		return -1;
+	}
+
 	d->m_device_ids = device_ids;
 	return 0;
 }
-- 
2.43.0


From 91c0c20e70b8b865a3cfc15a5efb4b9972a91a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:39 +0000
Subject: [PATCH 41/43] fix: CUDA Barnes-Hut engines updated tree incorrectly
 if count of bodies is not a power of two

---
 nbody/nbody_engine_cuda_bh.cpp     | 11 ++++++++---
 nbody/nbody_engine_cuda_bh_tex.cpp | 11 ++++++++---
 nbody/nbody_engine_cuda_impl.cu    | 16 ++++++++--------
 nbody/nbody_engine_cuda_impl.h     |  4 ++--
 4 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/nbody/nbody_engine_cuda_bh.cpp b/nbody/nbody_engine_cuda_bh.cpp
index 51623a2..660bd2e 100644
--- a/nbody/nbody_engine_cuda_bh.cpp
+++ b/nbody/nbody_engine_cuda_bh.cpp
@@ -151,12 +151,17 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 						   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 						   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Inner nodes are [NBODY_HEAP_ROOT_INDEX, data_size). Update them level by level, bottom up
+			size_t	level_size = NBODY_HEAP_ROOT_INDEX;
+			while(2 * level_size < data_size)
+			{
+				level_size *= 2;
+			}
+			for(; level_size >= NBODY_HEAP_ROOT_INDEX; level_size /= 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh(level_size,
+				update_node_bh(level_size, data_size,
 							   static_cast<nbcoord_t*>(m_dev_tree_cmx->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmy->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmz->data(dev_n)),
diff --git a/nbody/nbody_engine_cuda_bh_tex.cpp b/nbody/nbody_engine_cuda_bh_tex.cpp
index d9014c9..23d0797 100644
--- a/nbody/nbody_engine_cuda_bh_tex.cpp
+++ b/nbody/nbody_engine_cuda_bh_tex.cpp
@@ -143,12 +143,17 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 							   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 							   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Inner nodes are [NBODY_HEAP_ROOT_INDEX, data_size). Update them level by level, bottom up
+			size_t	level_size = NBODY_HEAP_ROOT_INDEX;
+			while(2 * level_size < data_size)
+			{
+				level_size *= 2;
+			}
+			for(; level_size >= NBODY_HEAP_ROOT_INDEX; level_size /= 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh_tex(level_size,
+				update_node_bh_tex(level_size, data_size,
 								   static_cast<nbcoord_t*>(m_dev_tree_xyzr->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmx->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmy->data(dev_n)),
diff --git a/nbody/nbody_engine_cuda_impl.cu b/nbody/nbody_engine_cuda_impl.cu
index 0af09d5..2787c1d 100644
--- a/nbody/nbody_engine_cuda_impl.cu
+++ b/nbody/nbody_engine_cuda_impl.cu
@@ -560,7 +560,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__global__ void kupdate_node_bh(int level_size,
+__global__ void kupdate_node_bh(int level_size, int points_count,
 								nbcoord_t* tree_cmx,
 								nbcoord_t* tree_cmy,
 								nbcoord_t* tree_cmz,
@@ -575,7 +575,7 @@ __global__ void kupdate_node_bh(int level_size,
 								nbcoord_t distance_to_node_radius_ratio_sqr)
 {
 	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	if(idx >= 2 * level_size || idx >= points_count)
 	{
 		return;
 	}
@@ -614,7 +614,7 @@ __global__ void kupdate_node_bh(int level_size,
 	tree_crit_r2[idx] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_size, int points_count,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -631,7 +631,7 @@ __host__ void update_node_bh(int level_size,
 	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh <<< grid, block >>> (level_size,
+	kupdate_node_bh <<< grid, block >>> (level_size, points_count,
 										 tree_cmx, tree_cmy, tree_cmz,
 										 bmin_cmx, bmin_cmy, bmin_cmz,
 										 bmax_cmx, bmax_cmy, bmax_cmz,
@@ -641,7 +641,7 @@ __host__ void update_node_bh(int level_size,
 }
 
 // Update node coordinates (Barnes-Hut engine) texture storage mode
-__global__ void kupdate_node_bh_tex(int level_size,
+__global__ void kupdate_node_bh_tex(int level_size, int points_count,
 									nbcoord_t* tree_xyzr,
 									nbcoord_t* bmin_cmx,
 									nbcoord_t* bmin_cmy,
@@ -653,7 +653,7 @@ __global__ void kupdate_node_bh_tex(int level_size,
 									nbcoord_t distance_to_node_radius_ratio_sqr)
 {
 	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	if(idx >= 2 * level_size || idx >= points_count)
 	{
 		return;
 	}
@@ -692,7 +692,7 @@ __global__ void kupdate_node_bh_tex(int level_size,
 	tree_xyzr[4 * idx + 3] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_size, int points_count,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
@@ -706,7 +706,7 @@ __host__ void update_node_bh_tex(int level_size,
 	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh_tex <<< grid, block >>> (level_size, tree_xyzr,
+	kupdate_node_bh_tex <<< grid, block >>> (level_size, points_count, tree_xyzr,
 											 bmin_cmx, bmin_cmy, bmin_cmz,
 											 bmax_cmx, bmax_cmy, bmax_cmz,
 											 tree_mass, distance_to_node_radius_ratio_sqr);
diff --git a/nbody/nbody_engine_cuda_impl.h b/nbody/nbody_engine_cuda_impl.h
index bcdd93e..659798f 100644
--- a/nbody/nbody_engine_cuda_impl.h
+++ b/nbody/nbody_engine_cuda_impl.h
@@ -61,7 +61,7 @@ __host__ void update_leaf_bh(int points_count,
 							 nbcoord_t* bmax_cmy,
 							 nbcoord_t* bmax_cmz,
 							 const int* body_n);
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_size, int points_count,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -84,7 +84,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 								 nbcoord_t* bmax_cmy,
 								 nbcoord_t* bmax_cmz,
 								 const int* body_n);
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_size, int points_count,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
-- 
2.43.0


From c5aa94ae3a07c9312259c974430f7a485da891cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:42 +0000
Subject: [PATCH 42/43] fix: CUDA engine did not wait for peer devices before
 exchange of coordinates

---
 nbody/nbody_engine_cuda.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index f4b4a6d..daab66f 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -629,6 +629,12 @@ void nbody_engine_cuda::synchronize_y(smemory* y)
 	{
 		return;
 	}
+	// Copy to a peer device does not wait for commands issued to it
+	for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
+	{
+		CUDACHECK(cudaSetDevice(d->m_device_ids[dev_n]));
+		CUDACHECK(cudaDeviceSynchronize());
+	}
 #ifdef HAVE_NCCL
 	if(d->m_nccl_is_active)
 	{
-- 
2.43.0


From 6996cbb400e36118d8df562f435917aad594da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:45 +0000
Subject: [PATCH 43/43] fix: build with quad precision failed on precision of
 stream index

---
 nbody/nbody_data_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index a22bdad..9fefe5a 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -166,7 +166,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 
 	QByteArray	idx_record;
 	QTextStream	idx_stream(&idx_record);
-	idx_stream.setRealNumberPrecision(std::numeric_limits<nbcoord_t>::digits10);
+	idx_stream.setRealNumberPrecision(std::numeric_limits<double>::digits10);
 
 	if((!d->m_header_written) && 0 != d->write_header(bdata, idx_stream))
 	{
-- 
2.43.0

