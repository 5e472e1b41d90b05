From c4dbe7370e7e81abd51b1b7fae7aad2721972666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 01/59] fix: use a symmetric planewave set for odd grid sizes

---
 src/maxwell/maxwell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..7a869be 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -421,7 +421,8 @@ void update_maxwell_data_k(maxwell_data *d, real k[3],
 			   real G1[3], real G2[3], real G3[3])
 {
      int nx = d->nx, ny = d->ny, nz = d->nz;
-     int cx = MAX2(1,d->nx/2), cy = MAX2(1,d->ny/2), cz = MAX2(1,d->nz/2);
+     /* round up, so that the planewave set is symmetric for odd sizes */
+     int cx = (nx + 1) / 2, cy = (ny + 1) / 2, cz = (nz + 1) / 2;
      k_data *kpG = d->k_plus_G;
      real *kpGn2 = d->k_plus_G_normsqr;
      int x, y, z;
-- 
2.43.0


From 59aa033de35bae80c253b393f4ac2fa815c7599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 02/59] fix: apply the Bloch phase to complex scalar fields
 with the right stride

fieldio_write_complex_field assumed three components per point, so that
the phase of one-component fields (e.g. output-charge-density) was wrong.
---
 src/matrixio/fieldio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..6175c11 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,16 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components;
+			      ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From ec1cbc4cefa452f8600c608bcc7bfa148a58ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 03/59] fix: get-hfield returns H = B/mu, not its transverse
 part

With magnetic materials only the transverse projection of B/mu was kept.
---
 mpb/fields.c          | 12 ++++--------
 src/maxwell/maxwell.h |  4 ++++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..6d08a34 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -127,14 +127,10 @@ void get_hfield(integer which_band)
      curfield = (scalar_complex *) mdata->fft_data;
      curfield_band = which_band;
      curfield_type = 'h';
-     if (mdata->mu_inv == NULL)
-         maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
-     else {
-         evectmatrix_resize(&W[0], 1, 0);
-         maxwell_compute_H_from_B(mdata, H, W[0], curfield, which_band-1,0, 1);
-         maxwell_compute_h_from_H(mdata, W[0], curfield, 0, 1);
-         evectmatrix_resize(&W[0], W[0].alloc_p, 0);
-     }
+     maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
+     /* the eigenvectors are B; note that H = B/mu is not transverse */
+     if (mdata->mu_inv != NULL)
+	  maxwell_compute_e_from_d_(mdata, curfield, 1, mdata->mu_inv);
 
      /* Divide by the cell volume so that the integral of H*B
         or of D*E is unity.  (From the eigensolver + FFT, they are
diff --git a/src/maxwell/maxwell.h b/src/maxwell/maxwell.h
index 7e42f2b..c9f22a0 100644
--- a/src/maxwell/maxwell.h
+++ b/src/maxwell/maxwell.h
@@ -183,6 +183,10 @@ extern void maxwell_compute_H_from_B(maxwell_data *d, evectmatrix Bin,
                                      evectmatrix Hout, scalar_complex *hfield,
                                      int Bin_band_start, int Hout_band_start,
                                      int cur_num_bands);
+extern void maxwell_compute_e_from_d_(maxwell_data *d,
+				      scalar_complex *dfield,
+				      int cur_num_bands,
+				      symmetric_matrix *eps_inv_);
 extern void maxwell_compute_e_from_d(maxwell_data *d,
 				     scalar_complex *dfield,
 				     int cur_num_bands);
-- 
2.43.0


From 9fc368cc52cb65877b753a3076a0ad8167682d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 04/59] fix: compute-field-divergence gave wrong values

The z component of k+G was wrong, the real part was clobbered before it was
used for the imaginary part, and with inversion symmetry k+G was indexed with
the padded row length.
---
 mpb/fields.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 6d08a34..712874f 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -384,11 +384,11 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nz);
+	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nx);
 	       ASSIGN_SCALAR(field2[ij],
 			     SCALAR_RE(field2[3*ij+0]) * kx +
 			     SCALAR_RE(field2[3*ij+1]) * ky +
@@ -406,9 +406,8 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
-	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+	  real re = CSCALAR_RE(curfield[i]), im = CSCALAR_IM(curfield[i]);
+	  CASSIGN_SCALAR(curfield[i], -im * scale, re * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From 538d454e0d688ac8c0581438875a59a300b7ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 05/59] fix: group velocities with magnetic materials

The velocity operator used only the transverse part of H = B/mu, and computing
the velocities overwrote the eigenvectors when all bands form one block.
---
 mpb/mpb.c                | 25 +++++++++++++++++--------
 src/maxwell/maxwell_op.c | 25 +++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..fb68eb7 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -903,15 +903,22 @@ number_list compute_group_velocity_component(vector3 d)
      for (ib = 0; ib < num_bands; ib += Hblock.alloc_p) {
 	  if (ib + mdata->num_bands > num_bands) {
 	       maxwell_set_num_bands(mdata, num_bands - ib);
-	       evectmatrix_resize(&W[0], num_bands - ib, 0);
+	       for (i = 0; i < nwork_alloc; ++i)
+		    evectmatrix_resize(&W[i], num_bands - ib, 0);
 	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
-                                   (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
+	  if (Hblock.data != H.data)
+	       evectmatrix_copy_slice(Hblock, H, 0, ib, Hblock.p);
 	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
-				    gv_scratch + group_v.num_items);
+	  if (mdata->mu_inv == NULL)
+	       evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
+					 gv_scratch + group_v.num_items);
+	  else { /* Hblock may be H itself, so don't overwrite it */
+	       CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
+	       maxwell_muinv_operator(Hblock, W[1], (void *) mdata, 1, W[0]);
+	       evectmatrix_XtY_diag_real(W[1], W[0], gv_scratch,
+					 gv_scratch + group_v.num_items);
+	  }
 	  {
 	       int ip;
 	       for (ip = 0; ip < Hblock.p; ++ip)
@@ -923,7 +930,8 @@ number_list compute_group_velocity_component(vector3 d)
 
      /* Reset scratch matrix sizes: */
      evectmatrix_resize(&Hblock, Hblock.alloc_p, 0);
-     evectmatrix_resize(&W[0], W[0].alloc_p, 0);
+     for (i = 0; i < nwork_alloc; ++i)
+	  evectmatrix_resize(&W[i], W[i].alloc_p, 0);
      maxwell_set_num_bands(mdata, Hblock.alloc_p);
 
      /* The group velocity is given by:
@@ -972,10 +980,11 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
      evectmatrix_resize(&W[1], 1, 0);
 
+     evectmatrix_copy_slice(W[1], H, 0, ib, 1);
+     maxwell_ucross_op(W[1], W[0], mdata, u);
      maxwell_compute_H_from_B(mdata, H, W[1],
                               (scalar_complex *) mdata->fft_data,
                               ib, 0, 1);
-     maxwell_ucross_op(W[1], W[0], mdata, u);
      evectmatrix_XtY_diag_real(W[1], W[0], &group_v, &scratch);
 
      /* Reset scratch matrix sizes: */
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..3245280 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -1283,7 +1283,9 @@ void maxwell_target_operator(evectmatrix Xin, evectmatrix Xout, void *data,
 
 /* Compute the operation Xout = curl 1/epsilon * i u x Xin, which 
    is useful operation in computing the group velocity (derivative
-   of the maxwell operator).  u is a vector in cartesian coordinates. */
+   of the maxwell operator).  u is a vector in cartesian coordinates.
+   With magnetic materials, Xin is the B field and the operation is
+   Xout = curl 1/epsilon * i u x (1/mu Xin). */
 void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 		       maxwell_data *d, const real u[3])
 {
@@ -1307,6 +1309,24 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
           cur_band_start += d->num_fft_bands) {
           int cur_num_bands = MIN2(d->num_fft_bands, Xin.p - cur_band_start);
 	  
+	  if (d->mu_inv != NULL) {
+	       /* Xin is B: compute u x H in position space, where H = B/mu
+		  also has a component along k+G. */
+	       maxwell_compute_h_from_H(d, Xin, cdata,
+					cur_band_start, cur_num_bands);
+	       maxwell_compute_e_from_d_(d, cdata, cur_num_bands, d->mu_inv);
+	       for (i = 0; i < d->fft_output_size * cur_num_bands; ++i) {
+		    scalar_complex hx = cdata[3*i], hy = cdata[3*i+1],
+			 hz = cdata[3*i+2];
+		    CASSIGN_SCALAR(cdata[3*i], u[1] * hz.re - u[2] * hy.re,
+				   u[1] * hz.im - u[2] * hy.im);
+		    CASSIGN_SCALAR(cdata[3*i+1], u[2] * hx.re - u[0] * hz.re,
+				   u[2] * hx.im - u[0] * hz.im);
+		    CASSIGN_SCALAR(cdata[3*i+2], u[0] * hy.re - u[1] * hx.re,
+				   u[0] * hy.im - u[1] * hx.im);
+	       }
+	  }
+	  else {
 	  /* first, compute fft_data = u x Xin: */
 	  for (i = 0; i < d->other_dims; ++i)
 	       for (j = 0; j < d->last_dim; ++j) {
@@ -1326,7 +1346,8 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 	  /* now, convert to position space via FFT: */
 	  maxwell_compute_fft(+1, d, fft_data_in, fft_data,
 			      cur_num_bands*3, cur_num_bands*3, 1);
-	  
+	  }
+
           maxwell_compute_e_from_d(d, cdata, cur_num_bands);
           maxwell_compute_H_from_e(d, Xout, cdata,
                                    cur_band_start, cur_num_bands, scale);
-- 
2.43.0


From 4a6a22df810447cbdded75e28d15e3392930d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 06/59] fix: normalise the parity expectation values over both
 mirror partners

---
 src/maxwell/maxwell_constraints.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..c415c43 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,15 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
+		    norm_scratch[b] += (ij == ij2 ? 0.5 : 1.0) *
                          (SCALAR_RE(u) * SCALAR_RE(u) +
                           SCALAR_IM(u) * SCALAR_IM(u) +
                           SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+                          SCALAR_IM(v) * SCALAR_IM(v) +
+                          SCALAR_RE(u2) * SCALAR_RE(u2) +
+                          SCALAR_IM(u2) * SCALAR_IM(u2) +
+                          SCALAR_RE(v2) * SCALAR_RE(v2) +
+                          SCALAR_IM(v2) * SCALAR_IM(v2));
 	       }
 	  }
 
@@ -289,11 +293,15 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
+			 norm_scratch[b] += (ijk == ijk2 ? 0.5 : 1.0) *
 			      (SCALAR_RE(v) * SCALAR_RE(v) +
 			       SCALAR_IM(v) * SCALAR_IM(v) +
 			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			       SCALAR_IM(u) * SCALAR_IM(u) +
+			       SCALAR_RE(v2) * SCALAR_RE(v2) +
+			       SCALAR_IM(v2) * SCALAR_IM(v2) +
+			       SCALAR_RE(u2) * SCALAR_RE(u2) +
+			       SCALAR_IM(u2) * SCALAR_IM(u2));
 		    }
 	       }
 	  }
-- 
2.43.0


From 04cdcdf4feb2767259d14cece8fc318cbfad043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 07/59] fix: keep the excluded k+G=0 gradient component out of
 the preconditioner

At k=0 with mu != 1 the gradient has a k+G=0 component, which the fancy
preconditioner spread over all planewaves (with a scale that depends on
the length unit), so that the solver converged slowly or falsely.
---
 src/maxwell/maxwell_pre.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell_pre.c b/src/maxwell/maxwell_pre.c
index 8eddd96..2705a02 100644
--- a/src/maxwell/maxwell_pre.c
+++ b/src/maxwell/maxwell_pre.c
@@ -158,7 +158,9 @@ static void assign_crossinv_t2c(scalar *a, const k_data k,
 	in maxwell_op.c, except that we divide by -k^2: */
 
      scalar v0 = v[0], v1 = v[vstride];
-     real kmag_inv = -1.0 / FIX_DENOM(k.kmag);
+     /* The k+G = 0 component is excluded from the solution, but the
+	gradient may contain it if mu != 1; don't let it pollute 'a'. */
+     real kmag_inv = k.kmag == 0 ? 0 : -1.0 / FIX_DENOM(k.kmag);
 
      ASSIGN_SCALAR(a[0],
                    (SCALAR_RE(v0)*k.nx - SCALAR_RE(v1)*k.mx) * kmag_inv,
-- 
2.43.0


From 9f0e033a960ab61ab679935f432c2158d0c273e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 08/59] fix: leave room for the extra work array used with mu
 when eigensolver-nwork is at its maximum

---
 mpb/mpb.c | 2 +-
 mpb/mpb.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index fb68eb7..1f12f4b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -240,7 +240,7 @@ int nwork_alloc = 0;
 
 maxwell_data *mdata = NULL;
 maxwell_target_data *mtdata = NULL;
-evectmatrix H, W[MAX_NWORK], Hblock, muinvH;
+evectmatrix H, W[MAX_NWORK + 1], Hblock, muinvH;
 
 vector3 cur_kvector;
 scalar_complex *curfield = NULL;
diff --git a/mpb/mpb.h b/mpb/mpb.h
index 2e2187c..c6c4674 100644
--- a/mpb/mpb.h
+++ b/mpb/mpb.h
@@ -53,7 +53,7 @@ extern int nwork_alloc;
 
 extern maxwell_data *mdata;
 extern maxwell_target_data *mtdata;
-extern evectmatrix H, W[MAX_NWORK], Hblock;
+extern evectmatrix H, W[MAX_NWORK + 1], Hblock;
 
 extern vector3 cur_kvector;
 extern scalar_complex *curfield;
-- 
2.43.0


From 7858dcaf395984043dc4d080f0fb1b295fd31cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 09/59] fix: reallocate the eigenvector work arrays when mu is
 switched on or off between runs

---
 mpb/mpb.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 1f12f4b..e33377f 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -370,6 +370,19 @@ void set_parity(integer p)
 
 /**************************************************************************/
 
+/* free the eigenvector and work arrays allocated by init_params */
+static void destroy_fields(void)
+{
+     int i;
+     destroy_evectmatrix(H);
+     for (i = 0; i < nwork_alloc; ++i)
+	  destroy_evectmatrix(W[i]);
+     if (Hblock.data != H.data)
+	  destroy_evectmatrix(Hblock);
+     if (muinvH.data != H.data)
+	  destroy_evectmatrix(muinvH);
+}
+
 /* Guile-callable function: init-params, which initializes any data
    that we need for the eigenvalue calculation.  When this function
    is called, the input variables (the geometry, etcetera) have already
@@ -444,15 +457,8 @@ void init_params(integer p, boolean reset_fields)
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
 	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
-	  }
+	  else
+	       destroy_fields();
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -480,6 +486,13 @@ void init_params(integer p, boolean reset_fields)
 
      init_epsilon();
 
+     if (have_old_fields &&
+	 eigensolver_nwork + (mdata->mu_inv!=NULL) != nwork_alloc) {
+	  /* mu was switched on or off: W and muinvH have to change */
+	  destroy_fields();
+	  have_old_fields = 0;
+     }
+
      if (!have_old_fields) {
 	  mpi_one_printf("Allocating fields...\n");
 	  H = create_evectmatrix(nx * ny * nz, 2, num_bands,
-- 
2.43.0


From def5a5075dda104491921d9360c6432749c23af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 10/59] fix: adjoint projection of the preconditioned gradient
 for generalized problems (EIGS_PROJECT_PRECONDITIONING with mu)

---
 src/matrices/eigensolver.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrices/eigensolver.c b/src/matrices/eigensolver.c
index a44223f..c5a98ad 100644
--- a/src/matrices/eigensolver.c
+++ b/src/matrices/eigensolver.c
@@ -445,10 +445,11 @@ void eigensolver_lagrange(evectmatrix Y, real *eigenvals,
                constraint(X, constraint_data);
 
 	  if (flags & EIGS_PROJECT_PRECONDITIONING) {
-               /* Operate projection P = (1 - BY U Yt) on X: */
-               evectmatrix_XtY(symYtBD, Y, X, S2);  /* symYtBD = Yt X */
+               /* Operate projection P = (1 - Y U (BY)t) on X, the adjoint
+                  of the projection in G, so that Yt B X = 0: */
+               evectmatrix_XtY(symYtBD, BY, X, S2);  /* symYtBD = Yt B X */
 	       sqmatrix_AeBC(S1, U, 0, symYtBD, 0);
-	       evectmatrix_XpaYS(X, -1.0, BY, S1, 0);
+	       evectmatrix_XpaYS(X, -1.0, Y, S1, 0);
           }
 
 	  /* Now, for the case of EIGS_ORTHOGONAL_PRECONDITIONER, we
-- 
2.43.0


From 21bd5e28329bb38f25db364b33cc8466aa7487a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 11/59] fix: inversion-symmetric build: count the image half of
 the cell in energy-in-objects, field integrals and material-grid gradients

---
 mpb/fields.c        | 56 +++++++++++++++++++++++++++------------------
 mpb/material_grid.c |  6 ++---
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 712874f..044efdf 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1292,6 +1292,18 @@ void output_field_to_file(integer which_component, string filename_prefix)
 
 /**************************************************************************/
 
+/* Is p inside one of the objects?  Later objects have precedence, and
+   those made of material-type SELF are treated as "nothing" objects. */
+static int point_in_object_list(vector3 p, geometric_object_list objects)
+{
+     int n;
+     for (n = objects.num_items - 1; n >= 0; --n)
+	  if (point_in_periodic_fixed_objectp(p, objects.items[n]))
+	       return (objects.items[n].material.which_subclass
+		       != MATERIAL_TYPE_SELF);
+     return 0;
+}
+
 /* For curfield an energy density, compute the fraction of the energy
    that resides inside the given list of geometric objects.   Later
    objects in the list have precedence, just like the ordinary
@@ -1328,31 +1340,31 @@ number compute_energy_in_object_list(geometric_object_list objects)
 
      LOOP_XYZ(mdata) {
 	       vector3 p;
-	       int n;
 	       p.x = i1 * s1 - c1; p.y = i2 * s2 - c2; p.z = i3 * s3 - c3;
-	       for (n = objects.num_items - 1; n >= 0; --n)
-		    if (point_in_periodic_fixed_objectp(p, objects.items[n])) {
-			 if (objects.items[n].material.which_subclass
-			     == MATERIAL_TYPE_SELF)
-			      break; /* treat as a "nothing" object */
-			 energy_sum += energy[xyz_index];
+	       if (point_in_object_list(p, objects))
+		    energy_sum += energy[xyz_index];
 #ifndef SCALAR_COMPLEX
-			 {
-			      int last_index;
+	       {
+		    int last_index;
 #  ifdef HAVE_MPI
-			      if (n3 == 1)
-				   last_index = j + local_y_start;
-			      else
-				   last_index = k;
+		    if (n3 == 1)
+			 last_index = i2;
+		    else
+			 last_index = i3;
 #  else
-			      last_index = j;
+		    last_index = i2_;
 #  endif
-			      if (last_index != 0 && 2*last_index != last_dim)
-				   energy_sum += energy[xyz_index];
-			 }
-#endif
-			 break;
+		    /* the inversion image of the point has the same energy,
+		       but is not necessarily inside the same objects: */
+		    if (last_index != 0 && 2*last_index != last_dim) {
+			 p.x = (i1 ? n1 - i1 : 0) * s1 - c1;
+			 p.y = (i2 ? n2 - i2 : 0) * s2 - c2;
+			 p.z = (i3 ? n3 - i3 : 0) * s3 - c3;
+			 if (point_in_object_list(p, objects))
+			      energy_sum += energy[xyz_index];
 		    }
+	       }
+#endif
 	}}}
 
      mpi_allreduce_1(&energy_sum, real, SCALAR_MPI_TYPE,
@@ -1445,11 +1457,11 @@ cnumber compute_field_integral(function f)
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..c0e2de4 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -429,11 +429,11 @@ void material_grids_addgradient(double *v,
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From 2904c67dfd00021393efb406155dcc1fc47c4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 12/59] fix: Bloch phase of point queries along no-size
 dimensions

---
 mpb/fields.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 044efdf..967dae4 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -701,6 +701,16 @@ number get_energy_point(vector3 p)
      return f_interp_val(p, mdata, (real *) curfield, 1, 0);
 }
 
+/* Bloch phase k*p (p in the lattice basis); a no-size dimension has a
+   lattice vector of unit length, regardless of geometry_lattice.size. */
+static double bloch_phase(vector3 p)
+{
+     return TWOPI *
+	  (cur_kvector.x * (no_size_x ? p.x : p.x/geometry_lattice.size.x) +
+	   cur_kvector.y * (no_size_y ? p.y : p.y/geometry_lattice.size.y) +
+	   cur_kvector.z * (no_size_z ? p.z : p.z/geometry_lattice.size.z));
+}
+
 void get_bloch_field_point_(scalar_complex field[3], vector3 p)
 {
      CHECK(curfield && strchr("dhbecv", curfield_type),
@@ -728,10 +738,7 @@ cvector3 get_field_point(vector3 p)
      get_bloch_field_point_(field, p);
 
      if (curfield_type != 'v') {
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -761,10 +768,7 @@ cnumber get_cscalar_point(vector3 p)
 
      if (curfield_type == 'C') {
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
@@ -810,10 +814,7 @@ cvector3 cvector_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char != 'v') { /* v fields have no kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -845,10 +846,7 @@ cnumber cscalar_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char == 'C') { /* have kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
-- 
2.43.0


From 8795d72dc1cf06bb060eae5867f01c85ef45ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 13/59] fix: inversion-symmetric build: conjugate complex
 scalar fields at image points in integrate-fields

---
 mpb/field-smob.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 2e568f3..9ef2c2a 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -596,8 +596,9 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 					    pf[ifield]->f.rs[index]);
 				       break;
 				  case CSCALAR_FIELD_SMOB:
-				       item = cnumber2scm(cscalar2cnumber(
-					    pf[ifield]->f.cs[index]));
+				       item = cnumber2scm(cnumber_conj(
+					    cscalar2cnumber(
+						 pf[ifield]->f.cs[index])));
 				       break;
 				  case CVECTOR_FIELD_SMOB:
 				       item = cvector32scm(
-- 
2.43.0


From b59d9e6b8fd4c2bb72b7fa26ce39d44d2501cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 14/59] fix: multi-process offset of the reference point in
 fix-field-phase counts the three components

---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 967dae4..accbbaf 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -507,7 +507,7 @@ void fix_field_phase(void)
 	  }
      }
      if (i >= 0)  /* convert index to global index in distributed array: */
-	  maxabs_index += mdata->local_y_start * mdata->nx * mdata->nz;
+	  maxabs_index += 3 * mdata->local_y_start * mdata->nx * mdata->nz;
      {
 	  /* compute maximum index and corresponding sign over all the
 	     processors, using the MPI_MAXLOC reduction operation: */
-- 
2.43.0


From 7f41751154e4bda29342cb86ede8fac82191123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 15/59] fix: limit dot-eigenvectors blocks to the bands that
 fit in the FFT workspace

---
 mpb/matrix-smob.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index da83721..e2c7a98 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -306,11 +306,14 @@ SCM dot_eigenvectors(SCM mo, integer b_start)
          sqmatrix S1 = create_sqmatrix(m->p);
          sqmatrix S2 = create_sqmatrix(m->p);
 
-         for (ib = b_start-1; ib < final_band; ib += W[0].alloc_p) {
-             if (ib + W[0].alloc_p > final_band) {
-                 maxwell_set_num_bands(mdata, final_band - ib);
-                 evectmatrix_resize(&W[0], final_band - ib, 0);
-             }
+         /* ...nor may we exceed the number of bands that fit in fft_data: */
+         int nb_step = W[0].alloc_p < mdata->max_fft_bands ? W[0].alloc_p
+             : mdata->max_fft_bands;
+
+         for (ib = b_start-1; ib < final_band; ib += nb_step) {
+             int nb = ib + nb_step > final_band ? final_band - ib : nb_step;
+             maxwell_set_num_bands(mdata, nb);
+             evectmatrix_resize(&W[0], nb, 0);
              maxwell_compute_H_from_B(mdata, H, W[0],
                                       (scalar_complex *) mdata->fft_data,
                                       ib, 0, W[0].p);
-- 
2.43.0


From c1290f569f20e6855aa23fe7e876cc11ac1a4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 16/59] fix: mpb-data: process complex-scalar and imaginary
 off-diagonal datasets, honour -d for vector data, and do not read a missing
 wavevector

---
 utils/mpb-data.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..35513ed 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -542,7 +542,7 @@ void handle_file(const char *fname, const char *out_fname,
      int dims[2], rank;
      matrix3x3 Rin = {{1,0,0},{0,1,0},{0,0,1}}, Rout, coord_map;
      matrix3x3 cart_map = {{1,0,0},{0,1,0},{0,0,1}};
-#define NUM_DATANAMES 13
+#define NUM_DATANAMES 20
      char datanames[NUM_DATANAMES][30] = {
 	  "data",
 	  "epsilon.xx",
@@ -556,7 +556,14 @@ void handle_file(const char *fname, const char *out_fname,
 	  "epsilon_inverse.xz",
 	  "epsilon_inverse.yy",
 	  "epsilon_inverse.yz",
-	  "epsilon_inverse.zz"
+	  "epsilon_inverse.zz",
+	  "epsilon.xy.i",
+	  "epsilon.xz.i",
+	  "epsilon.yz.i",
+	  "epsilon_inverse.xy.i",
+	  "epsilon_inverse.xz.i",
+	  "epsilon_inverse.yz.i",
+	  "c"
      };
      int i;
 
@@ -580,7 +587,7 @@ void handle_file(const char *fname, const char *out_fname,
 
      kvector = matrixio_read_data_attr(in_file, "Bloch wavevector",
 				       &rank, 1, dims);
-     if (rank != 1 || dims[0] != 3) {
+     if (!kvector || rank != 1 || dims[0] != 3) {
 	  free(kvector);
 	  kvector = NULL;
      }
@@ -711,9 +718,11 @@ void handle_file(const char *fname, const char *out_fname,
      }
 
      /* handle complex vector fields x.{ri}, y.{ri}, z.{ri} */
-     handle_cvector_dataset(in_file, out_file,
-			    Rout, coord_map, cart_map, kvector, resolution,
-			    scaleby, multiply_size, pick_nearest, transpose);
+     if (!data_name)
+	  handle_cvector_dataset(in_file, out_file,
+				 Rout, coord_map, cart_map, kvector,
+				 resolution, scaleby, multiply_size,
+				 pick_nearest, transpose);
 
      free(kvector);
 
-- 
2.43.0


From 39b9b2d5a12659a3792115c94e043d1d827a0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 17/59] fix: mirror material-grid coordinates beyond 1 to 2 -
 r, not 1 - r

---
 mpb/epsilon_file.c  | 6 +++---
 mpb/material_grid.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..8ab2889 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -55,9 +55,9 @@ real linear_interpolate(real rx, real ry, real rz,
      real dx, dy, dz;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index c0e2de4..7648ac7 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -257,9 +257,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      real dx, dy, dz, u;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
-- 
2.43.0


From 4833d6d6cede49fc404a17daeb6090f387639447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 18/59] fix: randomize-material-grid!: values above 1 are
 mirrored to 2 - u

---
 mpb/material_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 7648ac7..6070551 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -703,7 +703,7 @@ void randomize_material_gridB(material_grid g, number noise)
 	  for (i = 0; i < n; ++i) {
 	       double u = grid[i] + noise * (-1 + rand() * 2.0/RAND_MAX);
 	       while (u < 0 || u > 1) { /* mirror boundary conditions */
-		    if (u > 1) u = 1 - u;
+		    if (u > 1) u = 2 - u;
 		    if (u < 0) u = -u;
 	       }
 	       grid[i] = u;
-- 
2.43.0


From b23ea8d223a7d2fe9de4ab9d90ac025a4f617f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 19/59] fix: material-grid gradient: a "nothing" object shows
 the default material

---
 mpb/material_grid.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 6070551..a7e9a91 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -322,6 +322,9 @@ static void material_grids_addgradient_point(double *v,
      int kind;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass
+	 == MATERIAL_TYPE_SELF)
+	  tp = 0; /* a "nothing" object: default material, as in epsilon_func */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
@@ -547,6 +550,9 @@ void print_material_grids_deps_du(void)
 	       p.x = i * s1 - c1; p.y = j * s2 - c2; p.z = k * s3 - c3;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass
+	 == MATERIAL_TYPE_SELF)
+	  tp = 0; /* a "nothing" object: default material, as in epsilon_func */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
-- 
2.43.0


From 17628fcd2719e8347338d2a52b2b031ebc4ba2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 20/59] fix: material-grid gradient: count only one of the
 grids tied for the U-MIN minimum

---
 mpb/material_grid.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index a7e9a91..df9d003 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -229,7 +229,8 @@ void material_grids_get(double *u, const material_grid *grids, int ngrids)
    pixel that contributes to the |E|^2 voxel in the linear interpolation.
 
    For U_MIN: Where multiple grids overlap, only those grids that contribute
-   the minimum u contribute, and for other grids the gradient is zero.
+   the minimum u contribute (the first one, if several are tied: there is
+   only one minimum), and for other grids the gradient is zero.
    This unfortunately makes the gradient only piecewise continuous.
 
    For U_PROD: The gradient is multiplied by the product of u's from
@@ -246,12 +247,13 @@ void material_grids_get(double *u, const material_grid *grids, int ngrids)
 /* add the weights from linear_interpolate (see the linear_interpolate
    function in epsilon_file.c) to data ... this has to be changed if
    linear_interpolate is changed!! ...also multiply by scaleby
-   etc. for different gradient types */
-static void add_interpolate_weights(real rx, real ry, real rz, real *data,
-				    int nx, int ny, int nz, int stride,
-				    double scaleby,
-				    const real *udata,
-				    int ukind, double uval)
+   etc. for different gradient types.  Returns 0 if nothing was added
+   (for U_MIN, when this grid does not attain the minimum uval). */
+static int add_interpolate_weights(real rx, real ry, real rz, real *data,
+				   int nx, int ny, int nz, int stride,
+				   double scaleby,
+				   const real *udata,
+				   int ukind, double uval)
 {
      int x, y, z, x2, y2, z2;
      real dx, dy, dz, u;
@@ -295,7 +297,7 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
 	  ((U(x,y,z2)*(1.0-dx) + U(x2,y,z2)*dx) * (1.0-dy) +
 	   (U(x,y2,z2)*(1.0-dx) + U(x2,y2,z2)*dx) * dy) * dz);
 
-     if (ukind == U_MIN && u != uval) return;
+     if (ukind == U_MIN && u != uval) return 0;
      if (ukind == U_PROD) scaleby *= uval / u;
 
      D(x,y,z) += (1.0-dx) * (1.0-dy) * (1.0-dz) * scaleby;
@@ -307,7 +309,10 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      D(x,y2,z2) += (1.0-dx) * dy * dz * scaleby;
      D(x2,y2,z2) += dx * dy * dz * scaleby;
 
+     return 1;
+
 #undef D
+#undef U
 }
 
 static void material_grids_addgradient_point(double *v,
@@ -343,6 +348,7 @@ static void material_grids_addgradient_point(double *v,
 	       vector3 sz = tp->objects[oi].o->material
 		    .subclass.material_grid_data->size;
 	       double *vcur = v, *ucur;
+	       int added;
 	       for (i = 0; i < ngrids; ++i) {
 		    if (material_grid_equal(grids+i,
 					    tp->objects[oi].o->material
@@ -354,10 +360,12 @@ static void material_grids_addgradient_point(double *v,
 	       }
 	       CHECK(i < ngrids, "bug in material_grid_gradient_point");
 	       ucur = material_grid_array(grids+i);
-	       add_interpolate_weights(pb.x, pb.y, pb.z,
-				       vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-				       ucur, kind, uval);
+	       added = add_interpolate_weights(pb.x, pb.y, pb.z,
+					       vcur, sz.x, sz.y, sz.z, 1,
+					       scalegrad, ucur, kind, uval);
 	       material_grid_array_release(grids+i);
+	       if (added && kind == U_MIN)
+		    return; /* only one grid gives the minimum */
 	       tp = geom_tree_search_next(p, tp, &oi);
 	  } while (tp &&
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
@@ -571,6 +579,7 @@ void print_material_grids_deps_du(void)
 	       vector3 sz = tp->objects[oi].o->material
 		    .subclass.material_grid_data->size;
 	       double *vcur = v, *ucur;
+	       int added;
 	       for (ig = 0; ig < ngrids; ++ig) {
 		    if (material_grid_equal(grids+ig,
 					    tp->objects[oi].o->material
@@ -582,10 +591,12 @@ void print_material_grids_deps_du(void)
 	       }
 	       CHECK(ig < ngrids, "bug in material_grid_gradient_point");
 	       ucur = material_grid_array(grids+ig);
-	       add_interpolate_weights(pb.x, pb.y, pb.z,
-				       vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-				       ucur, kind, uval);
+	       added = add_interpolate_weights(pb.x, pb.y, pb.z,
+					       vcur, sz.x, sz.y, sz.z, 1,
+					       scalegrad, ucur, kind, uval);
 	       material_grid_array_release(grids+ig);
+	       if (added && kind == U_MIN)
+		    goto gotmyv; /* only one grid gives the minimum */
 	       tp = geom_tree_search_next(p, tp, &oi);
 	  } while (tp &&
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
-- 
2.43.0


From df7c1e734c594315e0404b6a0743889cddebdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 21/59] fix: print-material-grids-gradient and
 material-grids-approx-gradient sum over processes

---
 mpb/material_grid.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index df9d003..dfd2e5e 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -473,12 +473,16 @@ void print_material_grids_gradient(integer band)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int i, ntot = material_grids_ntot(grids, ngrids);
-     double *grad = (double *) malloc(sizeof(double) * ntot);
-     for (i = 0; i < ntot; ++i) grad[i] = 0;
-     material_grids_addgradient(grad, 1.0, band, grids, ngrids);
+     double *work = (double *) malloc(sizeof(double) * ntot * 2);
+     double *grad = work + ntot;
+     for (i = 0; i < ntot; ++i) work[i] = 0;
+     material_grids_addgradient(work, 1.0, band, grids, ngrids);
+     /* gradient needs to be summed over processes */
+     mpi_allreduce(work, grad, ntot, double, MPI_DOUBLE,
+		   MPI_SUM, mpb_comm);
      for (i = 0; i < ntot; ++i)
 	  mpi_one_printf(", %g", grad[i]);
-     free(grad);
+     free(work);
      free(grids);
 }
 
@@ -494,7 +498,8 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
-     dfdu = u[iu];
+     mpi_allreduce(u + iu, &dfdu, 1, double, MPI_DOUBLE,
+		   MPI_SUM, mpb_comm);
      material_grids_get(u, grids, ngrids);
      u[iu] += du;
      material_grids_set(u, grids, ngrids);
-- 
2.43.0


From cec2367b9ae1f68081933c11ca320245c33fa52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 22/59] fix: match-epsilon-file with inversion symmetry:
 gradient of the partner point uses its own difference

---
 mpb/material_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index dfd2e5e..a69ca97 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -979,6 +979,7 @@ static double match_eps_func(int n, const double *u, double *grad, void *data)
 						   (i3c + 0.5) / n3, eps,
 						   eps_nx, eps_ny, eps_nz, 1);
 			 val += (epsilon - eps0) * (epsilon - eps0);
+			 scalegrad = 2.0 * scaleby * (epsilon - eps0);
 
 			 if (grad) {
 			      p.x = i1c * s1 - c1;
-- 
2.43.0


From 4cd0c6bfaab9d94d7dd9ff5303435f636bf29ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 23/59] fix: min-tetm-gap: clear the whole gradient, and check
 the band number

---
 mpb/material_grid_opt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/material_grid_opt.c b/mpb/material_grid_opt.c
index 1d8fcd0..5a2877a 100644
--- a/mpb/material_grid_opt.c
+++ b/mpb/material_grid_opt.c
@@ -56,7 +56,7 @@ static double mindiff_func(int n, const double *u, double *grad, void *data)
     d->iter++;
     material_grids_set(u, d->grids, d->ngrids);
     reset_epsilon();
-    if (grad) memset(work, 0, sizeof(double) * (n-2));
+    if (grad) memset(work, 0, sizeof(double) * n);
 
     set_maxwell_data_parity(mdata, EVEN_Z_PARITY);
     randomize_fields();
@@ -95,7 +95,8 @@ number material_grids_min_tetm_gap(vector3 kpoint, integer band,
      double *u, *lb, *ub, *u_tol, func_min;
      int have_uprod;
 
-     CHECK(band <= num_bands, "invalid band number in material-grid-min-tetm-gap");
+     CHECK(band > 0 && band <= num_bands,
+	   "invalid band number in material-grid-min-tetm-gap");
      d.k = kpoint;
      d.b = band;
      d.grids = get_material_grids(geometry, &d.ngrids);
-- 
2.43.0


From 636333539ae8c79c5d1f1c5369dcd52fa8c34993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 24/59] fix: free the list of material grids

---
 mpb/material_grid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index a69ca97..9d15808 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -641,6 +641,7 @@ void print_material_grids_deps_du(void)
      }
 
      free(v);
+     free(grids);
 }
 
 void print_material_grids_deps_du_numeric(double du)
@@ -703,6 +704,7 @@ void print_material_grids_deps_du_numeric(double du)
      free(ep);
      free(v);
      free(u);
+     free(grids);
 }
 
 /**************************************************************************/
@@ -1062,6 +1064,7 @@ void material_grids_match_epsilon_fileB(string filename, number eps_tol)
 
      free(u);
      free(d.eps);
+     free(d.grids);
 }
 
 /**************************************************************************/
-- 
2.43.0


From afa08ba1eb1ae815b9295b4cd1e0b3d56885f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 25/59] fix: mpb-data: no fixed-size buffers for dataset names

---
 utils/mpb-data.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 35513ed..247ada6 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -258,7 +258,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      int i, N;
      int start[3] = {0,0,0};
      matrixio_id data_id;
-     char out_name[1000];
+     char *out_name = NULL;
 
      d_in_re = matrixio_read_real_data(in_file, name_re, &rank, in_dims,
 				       0, 0, 0, NULL);
@@ -338,6 +338,12 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  }
      }
 
+     out_name = (char*) malloc(sizeof(char) *
+			       (strlen(name_re)
+				+ (name_im ? strlen(name_im) : 0)
+				+ strlen("-new") + 1));
+     CHECK(out_name, "out of memory");
+
      strcpy(out_name, name_re);
      if (out_file.id == in_file.id)
 	  strcat(out_name, "-new");
@@ -363,6 +369,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 	  printf("Successfully wrote out data.\n");
 
  done:
+     free(out_name);
      free(d_in_re);
      free(d_in_im);
      free(d_out_re);
@@ -697,11 +704,15 @@ void handle_file(const char *fname, const char *out_fname,
 
      for (i = 0; i < NUM_DATANAMES; ++i) {
 	  const char *dname = datanames[i];
-	  char name_re[300], name_im[300];
+	  char *name_re, *name_im;
 
 	  if (data_name)
 	       dname = data_name;
 
+	  name_re = (char*) malloc(sizeof(char) * (strlen(dname) + 3));
+	  name_im = (char*) malloc(sizeof(char) * (strlen(dname) + 3));
+	  CHECK(name_re && name_im, "out of memory");
+
 	  strcpy(name_re, dname);
 	  handle_dataset(in_file, out_file, name_re, NULL,
 			 Rout, coord_map, kvector, resolution,
@@ -713,6 +724,9 @@ void handle_file(const char *fname, const char *out_fname,
 			 Rout, coord_map, kvector, resolution,
 			 scaleby, multiply_size, pick_nearest, transpose);
 
+	  free(name_im);
+	  free(name_re);
+
 	  if (data_name)
 	       break;
      }
-- 
2.43.0


From 946e89ef0f2775a3a59cd5e500feee94dcd143f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 26/59] fix: append the .h5 suffix unless the file name ends
 with it

---
 src/matrixio/matrixio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..f0b56e7 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -320,7 +320,8 @@ static char *add_fname_suffix(const char *fname)
      strcpy(new_fname, fname);
 
      /* only add suffix if it is not already there: */
-     if (strstr(new_fname, FNAME_SUFFIX) != new_fname + oldlen - suflen)
+     if (oldlen < suflen
+	 || strcmp(new_fname + oldlen - suflen, FNAME_SUFFIX))
 	  strcat(new_fname, FNAME_SUFFIX);
 
      return new_fname;
-- 
2.43.0


From 7fa7e7304caf50b4971613d6c3515fc01b301e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 27/59] fix: epsilon-input-file and mu-input-file data points
 are grid points, with periodic interpolation

---
 mpb/epsilon_file.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 8ab2889..a492402 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -95,6 +95,35 @@ real linear_interpolate(real rx, real ry, real rz,
 #undef D
 }
 
+/* Linearly interpolate the periodic epsilon-file data at a point with
+   coordinates in [0,1].  The data points are at x/nx etcetera, just like
+   the points of the computational grid (and of our output files), so
+   that a file with the same grid size is reproduced exactly. */
+static real periodic_interpolate(real rx, real ry, real rz,
+				 const real *data, int nx, int ny, int nz)
+{
+     int x, y, z, x2, y2, z2;
+     real dx, dy, dz;
+
+     rx *= nx; ry *= ny; rz *= nz;
+     x = rx; y = ry; z = rz;
+     dx = rx - x; dy = ry - y; dz = rz - z;
+
+     /* periodic boundaries (x == nx is possible due to roundoff) */
+     x %= nx; x2 = (x + 1) % nx;
+     y %= ny; y2 = (y + 1) % ny;
+     z %= nz; z2 = (z + 1) % nz;
+
+#define D(x,y,z) (data[((x)*ny + (y))*nz + (z)])
+
+     return(((D(x,y,z)*(1.0-dx) + D(x2,y,z)*dx) * (1.0-dy) +
+	     (D(x,y2,z)*(1.0-dx) + D(x2,y2,z)*dx) * dy) * (1.0-dz) +
+	    ((D(x,y,z2)*(1.0-dx) + D(x2,y,z2)*dx) * (1.0-dy) +
+	     (D(x,y2,z2)*(1.0-dx) + D(x2,y2,z2)*dx) * dy) * dz);
+
+#undef D
+}
+
 static void epsilon_file_func(symmetric_matrix *eps, symmetric_matrix *eps_inv,
 			      const real r[3], void *edata)
 {
@@ -112,7 +141,7 @@ static void epsilon_file_func(symmetric_matrix *eps, symmetric_matrix *eps_inv,
      ry = ry < 1.0 ? ry : ry - ((int) ry);
      rz = rz < 1.0 ? rz : rz - ((int) rz);
 
-     eps_val = linear_interpolate(rx,ry,rz, d->data, d->nx,d->ny,d->nz, 1);
+     eps_val = periodic_interpolate(rx,ry,rz, d->data, d->nx,d->ny,d->nz);
      eps->m00 = eps->m11 = eps->m22 = eps_val;
      eps_inv->m00 = eps_inv->m11 = eps_inv->m22 = 1.0 / eps_val;
 #ifdef WITH_HERMITIAN_EPSILON
-- 
2.43.0


From 913b3426465b6f8555dd8c8088bb9535ddee1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 28/59] fix: symmetry overlaps with out-of-plane k and a
 translation along a no-size dimension

The Bloch phase in transformed_overlap divided the wavevector by the (1e-20)
size of no-size dimensions; a lattice unit there is the basis vector itself,
as in the other uses of the Bloch phase.
---
 mpb/transform.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpb/transform.c b/mpb/transform.c
index a84f605..98a770b 100644
--- a/mpb/transform.c
+++ b/mpb/transform.c
@@ -110,9 +110,9 @@ cnumber transformed_overlap(matrix3x3 W, vector3 w)
                         matrix3x3_inverse(geometry_lattice.basis));
 
     /* hoist rescalings outside the loop (maybe licm takes care of it, but do it anyway) */
-    kvector.x *= TWOPI/geometry_lattice.size.x;
-    kvector.y *= TWOPI/geometry_lattice.size.y;
-    kvector.z *= TWOPI/geometry_lattice.size.z;
+    kvector.x *= TWOPI/(no_size_x ? 1 : geometry_lattice.size.x);
+    kvector.y *= TWOPI/(no_size_y ? 1 : geometry_lattice.size.y);
+    kvector.z *= TWOPI/(no_size_z ? 1 : geometry_lattice.size.z);
 
     /* loop over coordinates (introduces int vars `i1`, `i2`, `i3`, `xyz_index`) */
     LOOP_XYZ(mdata) { /* implies two opening braces `{{` */
-- 
2.43.0


From 26243f5069393948cc4f456ee59e9f2b97d1b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 29/59] fix: num-bands = 0

init-params divided by zero with the default eigensolver-block-size, and
(run) left the gap list of the previous run.
---
 mpb/mpb.c      | 7 ++++---
 mpb/mpb.scm.in | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index e33377f..02d816b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -439,7 +439,8 @@ void init_params(integer p, boolean reset_fields)
      mpi_one_printf("Working in %d dimensions.\n", dimensions);
      mpi_one_printf("Grid size is %d x %d x %d.\n", nx, ny, nz);
 
-     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
+     if (num_bands > 0
+	 && eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
 	  block_size = eigensolver_block_size;
 	  if (block_size < 0) {
 	       /* Guess a block_size near -block_size, chosen so that
@@ -449,8 +450,8 @@ void init_params(integer p, boolean reset_fields)
 	  }
 	  mpi_one_printf("Solving for %d bands at a time.\n", block_size);
      }
-     else
-	  block_size = num_bands;
+     else /* (work for one band, at least, is needed even to get epsilon) */
+	  block_size = num_bands > 0 ? num_bands : 1;
 
      if (mdata) {  /* need to clean up from previous init_params call */
 	  if (nx == mdata->nx && ny == mdata->ny && nz == mdata->nz &&
diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 9171c1c..ad19daa 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -616,6 +616,7 @@
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
    (set! band-range-data '())
+   (set! gap-list '())
    (set! interactive? false)  ; don't be interactive if we call (run)
    (begin-time "elapsed time for initialization: "
 	       (init-params p (if reset-fields true false))
-- 
2.43.0


From 3d8bfb7c5c19730b3fe12c2c5c603dad6299037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 30/59] fix: first-brillouin-zone must not change k along
 no-size dimensions

The out-of-plane wavevector of a 1D or 2D problem is not periodic: the
function returned an inequivalent wavevector.
---
 mpb/mpb.scm.in | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index ad19daa..64d6235 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -410,20 +410,24 @@
   (define (try+ k v)
     (if (< (n (vector3+ k v)) (n k)) (try+ (vector3+ k v) v) k))
   (define (try k v) (try+ (try+ k v) (vector3- (vector3 0) v)))
-  (define trylist (list 
+  ; k is periodic only in the dimensions that have a size:
+  (define periodic (vector-map (lambda (s) (if (= s no-size) 0 1))
+			       (object-property-value geometry-lattice 'size)))
+  (define (periodic? v) (vector3= v (vector-map * v periodic)))
+  (define trylist (list-transform-positive (list
     #(1 0 0) #(0 1 0) #(0 0 1)
     #(0 1 1) #(1 0 1) #(1 1 0)
     #(0 1 -1) #(1 0 -1) #(1 -1 0)
     #(1 1 1)
     #(-1 1 1) #(1 -1 1) #(1 1 -1)
-  ))
+  ) periodic?))
   (define (try-all k)
     (fold-left try k trylist)
   )
   (define (try-all&repeat k)
     (let ((knew (try-all k)))
       (if (< (n knew) (n k)) (try-all&repeat knew) k)))
-  (let ((k0 (vector3- k (vector-map round k))))
+  (let ((k0 (vector3- k (vector-map * (vector-map round k) periodic))))
     (if (< (n k0) (n k)) (try-all&repeat k0) (try-all&repeat k))))
 
 ; ****************************************************************
-- 
2.43.0


From 5b534379506ef0cf0f2c88c8619d77e103870500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 31/59] fix: first-brillouin-zone for lattice vectors that are
 not reduced

With lattice vectors that could be shortened by adding others, the neighbors
of the origin are not among the combinations that were tried, and the result
was outside of the first Brillouin zone.
---
 mpb/mpb.scm.in | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 64d6235..63e9275 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -413,14 +413,40 @@
   ; k is periodic only in the dimensions that have a size:
   (define periodic (vector-map (lambda (s) (if (= s no-size) 0 1))
 			       (object-property-value geometry-lattice 'size)))
-  (define (periodic? v) (vector3= v (vector-map * v periodic)))
-  (define trylist (list-transform-positive (list
+  ; the reciprocal lattice vectors, reduced so that none can be shortened by
+  ; adding or subtracting the others, so that trylist has all the neighbors:
+  (define (try-shorten u v) (if (< (n v) (* (n u) (- 1 1e-10))) v u))
+  (define (reduce u v w)
+    (let ((u' (fold-left
+	       (lambda (u' c)
+		 (try-shorten u' (vector3+ u
+					   (vector3+
+					    (vector3-scale (car c) v)
+					    (vector3-scale (cdr c) w)))))
+	       u '((1 . 0) (-1 . 0) (0 . 1) (0 . -1)
+		   (1 . 1) (1 . -1) (-1 . 1) (-1 . -1)))))
+      (if (eq? u u') u (reduce u' v w))))
+  (define (reduce&repeat b)
+    (let ((u (reduce (first b) (second b) (third b))))
+      (let ((v (reduce (second b) u (third b))))
+	(let ((w (reduce (third b) u v)))
+	  (if (and (eq? u (first b)) (eq? v (second b)) (eq? w (third b)))
+	      b
+	      (reduce&repeat (list u v w)))))))
+  (define b (reduce&repeat (list (vector3 (vector3-x periodic) 0 0)
+				 (vector3 0 (vector3-y periodic) 0)
+				 (vector3 0 0 (vector3-z periodic)))))
+  (define (combine c)
+    (vector3+ (vector3-scale (vector3-x c) (first b))
+	      (vector3+ (vector3-scale (vector3-y c) (second b))
+			(vector3-scale (vector3-z c) (third b)))))
+  (define trylist (map combine (list
     #(1 0 0) #(0 1 0) #(0 0 1)
     #(0 1 1) #(1 0 1) #(1 1 0)
     #(0 1 -1) #(1 0 -1) #(1 -1 0)
     #(1 1 1)
     #(-1 1 1) #(1 -1 1) #(1 1 -1)
-  ) periodic?))
+  )))
   (define (try-all k)
     (fold-left try k trylist)
   )
-- 
2.43.0


From d017d3a64018139c7b2a7f225e08511fe8921ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 32/59] fix: find-k must accept the documented (list korig
 kdir) form of korig-and-kdir

---
 mpb/mpb.scm.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 63e9275..aa11626 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -882,7 +882,9 @@
 		tol kmag-guess kmag-min kmag-max . band-funcs)
   (define (ncdr n lst) (if (> n 0) (ncdr (- n 1) (cdr lst)) lst))
   (define korig (if (pair? korig-and-kdir) (car korig-and-kdir) (vector3 0)))
-  (define kdir (if (pair? korig-and-kdir) (cdr korig-and-kdir) korig-and-kdir))
+  (define kdir (cond ((list? korig-and-kdir) (cadr korig-and-kdir))
+		     ((pair? korig-and-kdir) (cdr korig-and-kdir))
+		     (else korig-and-kdir)))
   (let ((num-bands-save num-bands) (k-points-save k-points)
 	(nb (- band-max band-min -1)) 
 	(kdir1 (cartesian->reciprocal (unit-vector3 (reciprocal->cartesian kdir))))
-- 
2.43.0


From ca6266a18adba970cadd112cb2772c648f39b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 33/59] fix: endless line minimisation after a zero step

---
 src/matrices/eigensolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrices/eigensolver.c b/src/matrices/eigensolver.c
index c5a98ad..1612a55 100644
--- a/src/matrices/eigensolver.c
+++ b/src/matrices/eigensolver.c
@@ -751,7 +751,8 @@ void eigensolver_lagrange(evectmatrix Y, real *eigenvals,
                constraint(Y, constraint_data);
 
 	  prev_traceGtX = traceGtX;
-          prev_theta = theta;
+          if (theta != 0.0) /* a zero step is useless as the next guess */
+               prev_theta = theta;
           prev_E = E;
 
 	  /* Finally, we use the times for the various operations to
-- 
2.43.0


From 777495b12e98a27f9302b79c0fd84e50d3f449ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 34/59] fix: blasglue_gemm with an empty inner dimension scales
 C by b instead of zeroing it

---
 src/matrices/blasglue.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/matrices/blasglue.c b/src/matrices/blasglue.c
index 7a41e5e..ae49215 100644
--- a/src/matrices/blasglue.c
+++ b/src/matrices/blasglue.c
@@ -195,11 +195,19 @@ void blasglue_gemm(char transa, char transb, int m, int n, int k,
      if (m*n == 0)
 	  return;
 
-     if (k == 0) {
+     if (k == 0) { /* C = b * C */
 	  int i, j;
 	  for (i = 0; i < m; ++i)
-	       for (j = 0; j < n; ++j)
-		    ASSIGN_ZERO(C[i*fdC + j]);
+	       for (j = 0; j < n; ++j) {
+		    if (b == 0.0) {
+			 ASSIGN_ZERO(C[i*fdC + j]);
+		    }
+		    else {
+			 ASSIGN_SCALAR(C[i*fdC + j],
+				       b * SCALAR_RE(C[i*fdC + j]),
+				       b * SCALAR_IM(C[i*fdC + j]));
+		    }
+	       }
 	  return;
      }
 
-- 
2.43.0


From e35eb8c13f29485c004dac92c3120c30657c2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 35/59] fix: aXpbY of a matrix with itself gives (a+b)X, as
 documented

---
 src/matrices/evectmatrix.c | 10 +++++++---
 src/matrices/sqmatrix.c    | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..49d9ff1 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,10 +92,14 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
-     if (a != 1.0)
-	  blasglue_rscal(X.n * X.p, a, X.data, 1);
+     if (X.data == Y.data)
+	  blasglue_rscal(X.n * X.p, a + b, X.data, 1);
+     else {
+	  if (a != 1.0)
+	       blasglue_rscal(X.n * X.p, a, X.data, 1);
 
-     blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+	  blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+     }
      evectmatrix_flops += X.N * X.c * X.p * 3;
 }
 
diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 49b9531..8110bdf 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -189,10 +189,14 @@ void sqmatrix_aApbB(real a, sqmatrix A, real b, sqmatrix B)
 {
      CHECK(A.p == B.p, "arrays not conformant");
 
-     if (a != 1.0)
-          blasglue_rscal(A.p * A.p, a, A.data, 1);
+     if (A.data == B.data)
+          blasglue_rscal(A.p * A.p, a + b, A.data, 1);
+     else {
+          if (a != 1.0)
+               blasglue_rscal(A.p * A.p, a, A.data, 1);
 
-     blasglue_axpy(A.p * A.p, b, B.data, 1, A.data, 1);
+          blasglue_axpy(A.p * A.p, b, B.data, 1, A.data, 1);
+     }
 }
 
 /* U <- 1/U.  U must be Hermitian and, if positive_definite != 0,
-- 
2.43.0


From 68a8cde2e250bd59d3cdd7b0564d46129a1094b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 36/59] fix: approximate line minimization takes its trial step
 downhill, as intended

---
 src/matrices/eigensolver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrices/eigensolver.c b/src/matrices/eigensolver.c
index 1612a55..892b7ff 100644
--- a/src/matrices/eigensolver.c
+++ b/src/matrices/eigensolver.c
@@ -584,7 +584,7 @@ void eigensolver_lagrange(evectmatrix Y, real *eigenvals,
 	       dE = 2.0 * SCALAR_RE(evectmatrix_traceXtY(prev_G, D)) / d_norm;
 
 	       /* shift Y by prev_theta along D, in the downhill direction: */
-	       t = dE < 0 ? -fabs(prev_theta) : fabs(prev_theta);
+	       t = dE > 0 ? -fabs(prev_theta) : fabs(prev_theta);
 	       evectmatrix_aXpbY(1.0, Y, t / d_norm, D);
 
                if (B) {
-- 
2.43.0


From 425492c33ee0355c375b909f2453ef96219d6bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 37/59] fix: orthogonal preconditioner destroys the gradient
 that approximate line minimization needs

---
 src/matrices/eigensolver.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrices/eigensolver.c b/src/matrices/eigensolver.c
index 892b7ff..23e77c2 100644
--- a/src/matrices/eigensolver.c
+++ b/src/matrices/eigensolver.c
@@ -258,8 +258,15 @@ void eigensolver_lagrange(evectmatrix Y, real *eigenvals,
 	       fprintf(stderr, "WARNING: Polak-Ribiere may not work with the "
 		       "orthogonal-preconditioner option.\n");
      }
-     else
+     else {
           prev_G = G;
+	  if (flags & EIGS_ORTHOGONAL_PRECONDITIONER) {
+	       /* we use G as scratch space, below, so the gradient is no
+		  longer available for the approximate line minimization */
+	       flags |= EIGS_FORCE_EXACT_LINMIN;
+	       flags &= ~EIGS_FORCE_APPROX_LINMIN;
+	  }
+     }
 
      YtAYU = create_sqmatrix(Y.p);  /* holds Yt A Y */
      DtAD = create_sqmatrix(Y.p);  /* holds Dt A D */
-- 
2.43.0


From b3495da60d39e2cb764315a7b762903f2cda98df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 38/59] fix: output of a field that belongs to no solved band
 reads outside the frequency list

---
 mpb/fields.c | 17 ++++++++++++-----
 mpb/mpb.c    |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index accbbaf..3b353fa 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -39,6 +39,13 @@ extern void get_epsilon_tensor(int c1, int c2, int imag, int inv); /* in epsilon
 
 /**************************************************************************/
 
+/* the frequency of the given band at the current k-point, or 0 if it
+   was not solved for (e.g. the field was constructed by the user) */
+static double band_freq(int band)
+{
+     return (band >= 1 && band <= freqs.num_items) ? freqs.items[band - 1] : 0;
+}
+
 /* The following routines take the eigenvectors computed by solve-kpoint
    and compute the field (D, H, or E) in position space for one of the bands.
    This field is stored in the global curfield (actually an alias for
@@ -91,8 +98,8 @@ void get_dfield(int which_band)
 	  double scale;
 	  N = mdata->fft_output_size;
 
-	  if (freqs.items[which_band - 1] != 0.0) {
-	       scale = -1.0 / freqs.items[which_band - 1];
+	  if (band_freq(which_band) != 0.0) {
+	       scale = -1.0 / band_freq(which_band);
 	  }
 	  else
 	       scale = -1.0; /* arbitrary */
@@ -1103,7 +1110,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  }
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  band_freq(curfield_band));
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting fields to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1156,7 +1163,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 		  curfield_type, kpoint_index, curfield_band);
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  band_freq(curfield_band));
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting complex scalar field to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1216,7 +1223,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	       sprintf(description,
 		       "%c field energy density, kpoint %d, band %d, freq=%g",
 		       curfield_type, kpoint_index, curfield_band,
-		       freqs.items[curfield_band - 1]);
+		       band_freq(curfield_band));
 	  }
 	  fname2 = fix_fname(fname, filename_prefix, mdata,
 			     /* no parity suffix for epsilon: */
diff --git a/mpb/mpb.c b/mpb/mpb.c
index 02d816b..8017d04 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -957,7 +957,7 @@ number_list compute_group_velocity_component(vector3 d)
         Note that our k is in units of 2*Pi/a, and omega is in
         units of 2*Pi*c/a, so the result will be in units of c. */
      for (i = 0; i < num_bands; ++i) {
-	  if (freqs.items[i] == 0)  /* v is undefined in this case */
+	  if (i >= freqs.num_items || freqs.items[i] == 0)  /* v is undefined in this case */
 	       group_v.items[i] = 0.0;  /* just set to zero */
 	  else
 	       group_v.items[i] /=
@@ -1005,7 +1005,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      evectmatrix_resize(&W[1], W[1].alloc_p, 0);
      evectmatrix_resize(&W[0], W[0].alloc_p, 0);
 
-     if (freqs.items[ib] == 0)  /* v is undefined in this case */
+     if (ib >= freqs.num_items || freqs.items[ib] == 0)  /* v is undefined in this case */
 	  group_v = 0.0;  /* just set to zero */
      else
 	  group_v /= negative_epsilon_okp ? sqrt(fabs(freqs.items[ib]))
-- 
2.43.0


From e474c8bafc7b633c8643b0f9a01db0a0c90be4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 39/59] fix: a refused get-?field leaves no field of another
 band loaded

---
 mpb/fields.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index 3b353fa..8656048 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -58,6 +58,7 @@ static double band_freq(int band)
 
 void get_dfield(int which_band)
 {
+     curfield_reset(); /* even on failure, no other field is left loaded */
      if (!mdata) {
 	  mpi_one_fprintf(stderr,
 			  "init-params must be called before get-dfield!\n");
@@ -115,6 +116,7 @@ void get_dfield(int which_band)
 
 void get_hfield(integer which_band)
 {
+     curfield_reset(); /* even on failure, no other field is left loaded */
      if (!mdata) {
 	  mpi_one_fprintf(stderr,
 			  "init-params must be called before get-hfield!\n");
@@ -157,6 +159,7 @@ void get_hfield(integer which_band)
 
 void get_bfield(integer which_band)
 {
+     curfield_reset(); /* even on failure, no other field is left loaded */
      if (!mdata) {
 	  mpi_one_fprintf(stderr,
 			  "init-params must be called before get-bfield!\n");
-- 
2.43.0


From 163a803c553268cc56fd40cc2f1e5d9d9024ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 40/59] fix: refuse field queries before init-params instead of
 dereferencing null

---
 mpb/field-smob.c | 1 +
 mpb/fields.c     | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 9ef2c2a..deffac1 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -428,6 +428,7 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 	  last_dim = pf[0]->last_dim;
      }
      else {
+	  CHECK(mdata, "init-params must be called before integrate-fields");
 	  n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 	  n_other = mdata->other_dims;
 	  n_last = mdata->last_dim_size
diff --git a/mpb/fields.c b/mpb/fields.c
index 8656048..9547ab3 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -379,13 +379,14 @@ void compute_field_divergence(void)
 {
      int i, j, N;
      scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
           mpi_one_fprintf(stderr, "A Bloch-periodic field must be loaded.\n");
           return;
      }
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
 
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
@@ -682,6 +683,7 @@ static symmetric_matrix interp_eps_inv(vector3 p)
 number get_epsilon_point(vector3 p)
 {
      symmetric_matrix eps_inv;
+     CHECK(mdata, "init-params must be called before get-epsilon-point");
      eps_inv = interp_eps_inv(p);
      return mean_medium_from_matrix(&eps_inv);
 }
@@ -689,6 +691,8 @@ number get_epsilon_point(vector3 p)
 cmatrix3x3 get_epsilon_inverse_tensor_point(vector3 p)
 {
      symmetric_matrix eps_inv;
+     CHECK(mdata, "init-params must be called before "
+	   "get-epsilon-inverse-tensor-point");
      eps_inv = interp_eps_inv(p);
 
 #ifdef WITH_HERMITIAN_EPSILON
-- 
2.43.0


From 947c228d984a1bae56fb5ec180a3dc7d524f79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 41/59] fix: compute-field-squared without a vector field stops
 after its message

---
 mpb/fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index 9547ab3..1c0462e 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -363,6 +363,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+          return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
-- 
2.43.0


From ea23eddc55263b676e9f3e273e0e5884a1e4595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 42/59] fix: fix-field-phase of a field of no band must not
 write outside the eigenvectors

---
 mpb/fields.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index 1c0462e..6cdc80f 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -545,6 +545,8 @@ void fix_field_phase(void)
 	  curfield[i].re = a*SCALAR_RE(phase) - b*SCALAR_IM(phase);
 	  curfield[i].im = a*SCALAR_IM(phase) + b*SCALAR_RE(phase);
      }
+     if (curfield_band < 1 || curfield_band > H.p)
+	  return; /* a user-created field that belongs to no band */
      for (i = 0; i < H.n; ++i) {
           ASSIGN_MULT(H.data[i*H.p + curfield_band - 1],
 		      H.data[i*H.p + curfield_band - 1], phase);
-- 
2.43.0


From 9a88aba148aec90cf28de8059e3d874004077b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 43/59] fix: refuse a field component other than x, y, z for
 output

---
 mpb/fields.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index 6cdc80f..b306d4c 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1022,6 +1022,10 @@ void output_field_to_file(integer which_component, string filename_prefix)
      int first_dim_start = 0, first_dim_size = 0;
      int write_start0_special = 0;
 
+     if (which_component > 2) {
+	  mpi_one_fprintf(stderr, "field component must be x, y, or z.\n");
+	  return;
+     }
      if (!curfield) {
 	  mpi_one_fprintf(stderr,
 		  "fields, energy dens., or epsilon must be loaded first.\n");
-- 
2.43.0


From c2799f2b6ffdec5257d192b91cb223d9ab99dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 44/59] fix: material-grid gradient queries check band, grid
 index and initialisation

---
 mpb/material_grid.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 9d15808..032a740 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -405,12 +405,16 @@ void material_grids_addgradient(double *v,
      real s1, s2, s3, c1, c2, c3;
      real *Esqr;
 
-     CHECK(band <= num_bands, "addgradient called for uncomputed band");
+     CHECK(mdata, "init-params must be called before the gradient");
+     CHECK(band >= 0 && band <= freqs.num_items,
+	   "addgradient called for uncomputed band");
      if (band) {
 	  scalegrad *= -freqs.items[band - 1]/2;
 	  get_efield(band);
      }
      compute_field_squared();
+     CHECK(curfield && curfield_type == 'R',
+	   "addgradient called without a field");
      Esqr = (real *) curfield;
      scalegrad *= Vol / H.N;
 
@@ -494,6 +498,10 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      int i, ntot = material_grids_ntot(grids, ngrids);
      double *u = (double *) malloc(sizeof(double) * ntot);
      double f0, f1, dfdu;
+     CHECK(iu >= 0 && iu < ntot,
+	   "invalid grid index in material-grids-approx-gradient");
+     CHECK(band >= 1 && band <= num_bands,
+	   "invalid band in material-grids-approx-gradient");
      solve_kpoint(kpoint);
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
@@ -524,6 +532,8 @@ void print_material_grids_deps_du(void)
      int ntot = material_grids_ntot(grids, ngrids);
      double *v = (double *) malloc(sizeof(double) * ntot);
 
+     CHECK(mdata,
+	   "init-params must be called before print-material-grids-deps-du");
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 
      s1 = geometry_lattice.size.x / n1;
-- 
2.43.0


From f2740b181a0be8422ca715dbf019a7a1233cc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 45/59] fix: scale-eigenvector in mpbi refuses imaginary
 factors

---
 mpb/matrix-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index e2c7a98..8d720df 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -343,7 +343,7 @@ void scale_eigenvector(integer b, cnumber scale)
      CHECK(b > 0 && b <= H.p, "invalid band number in scale-eigenvector");
 
 #ifndef SCALAR_COMPLEX
-     CHECK(fabs(cnumber_im(scale) * cnumber_re(scale)) < 1e-14,
+     CHECK(fabs(cnumber_im(scale)) < 1e-14 * (1 + fabs(cnumber_re(scale))),
 	   "scale-eigenvector must be called with real argument in mpbi");
 #endif
      ASSIGN_SCALAR(s, cnumber_re(scale), cnumber_im(scale));
-- 
2.43.0


From 66bcb8bc6ecbc1e1088b6da822657ab85259173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 46/59] fix: eigenvalues of an empty square matrix

---
 src/matrices/sqmatrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 8110bdf..93aad63 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -302,6 +302,8 @@ void sqmatrix_eigenvalues(sqmatrix A, scalar_complex *eigvals)
     scalar *work, work1;
     real *rwork;
     int lwork;
+    if (A.p == 0)
+        return;
     B = create_sqmatrix(A.p);
     sqmatrix_copy(B, A);
     CHK_MALLOC(rwork, real, 2*A.p);
-- 
2.43.0


From 1459da1e9ff971147ecf373492693dfe013f90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 47/59] fix: compute-1-group-velocity refuses bad bands and
 returns no garbage

---
 mpb/mpb.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 8017d04..9da20e1 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -973,7 +973,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 {
      real u[3];
      int ib = b - 1;
-     real group_v, scratch;
+     real group_v = 0, scratch;
 
      curfield_reset();
 
@@ -985,6 +985,11 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
+     if (b < 1 || b > H.p) {
+	  mpi_one_fprintf(stderr,
+			  "must have 1 <= band index <= num_bands (%d)\n",H.p);
+	  return group_v;
+     }
 
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
-- 
2.43.0


From fdb06c1e6555e747298b14815f4f4582ff2e4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 48/59] fix: refuse non-positive lattice sizes (which never
 ended) and negative num-bands

---
 mpb/mpb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 9da20e1..2d704e2 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -405,6 +405,11 @@ void init_params(integer p, boolean reset_fields)
                               k_points.num_items :
                               MIN(k_points.num_items, MAX_KPOINTS_PRINT));
 
+     CHECK(geometry_lattice.size.x > 0 && geometry_lattice.size.y > 0 &&
+	   geometry_lattice.size.z > 0,
+	   "the size of the geometry-lattice must be positive (or no-size)");
+     CHECK(num_bands >= 0, "num-bands must not be negative");
+
      /* Output a bunch of stuff so that the user can see what we're
 	doing and what we've read in. */
 
-- 
2.43.0


From fd3543490824d8c250e10eca55cdc374e7839dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 49/59] fix: cvector-field-nonbloch! retyped scalar fields,
 whose data was then read out of bounds as complex vectors

---
 mpb/field-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index deffac1..2539201 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -243,6 +243,8 @@ SCM cvector_field_make(SCM f0)
 void cvector_field_nonblochB(SCM f)
 {
      field_smob *pf = assert_field_smob(f);
+     CHECK(pf->type == CVECTOR_FIELD_SMOB,
+	   "cvector-field-nonbloch! needs a complex vector field");
      pf->type_char = 'v';
      update_curfield(pf);
      scm_remember_upto_here_1(f);
-- 
2.43.0


From d66da97ac8ee6839a8b2fcc377650612a85770ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 50/59] fix: printing the epsilon derivatives of material grids
 read past the end of the stored (half or distributed) grid

---
 mpb/material_grid.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 032a740..0522ef6 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -523,6 +523,24 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      return (f1 - f0) / du;
 }
 
+/* The number of grid points, along each direction, at which eps_inv is
+   stored: for real fields the last non-trivial dimension is cut in half. */
+static void stored_grid_size(int *n1, int *n2, int *n3)
+{
+#ifdef HAVE_MPI
+     CHECK(0, "printing the epsilon derivatives is not supported in MPI");
+#endif
+     *n1 = mdata->nx; *n2 = mdata->ny; *n3 = mdata->nz;
+#ifndef SCALAR_COMPLEX
+     {
+	  int n_last = mdata->last_dim_size / 2;
+	  if (*n3 > 1) *n3 = n_last;
+	  else if (*n2 > 1) *n2 = n_last;
+	  else *n1 = n_last;
+     }
+#endif
+}
+
 void print_material_grids_deps_du(void)
 {
      int i, j, k, n1, n2, n3;
@@ -543,15 +561,8 @@ void print_material_grids_deps_du(void)
      c2 = n2 <= 1 ? 0 : geometry_lattice.size.y * 0.5;
      c3 = n3 <= 1 ? 0 : geometry_lattice.size.z * 0.5;
 
-     /* Here we have different loops over the coordinates, depending
-	upon whether we are using complex or real and serial or
-        parallel transforms.  Each loop must define, in its body,
-        variables (i2,j2,k2) describing the coordinate of the current
-        point, and "index" describing the corresponding index in
-	the curfield array.
-
-        This was all stolen from fields.c...it would be better
-        if we didn't have to cut and paste, sigh. */
+     /* loop over the points where epsilon is stored */
+     stored_grid_size(&n1, &n2, &n3);
 
      for (i = 0; i < n1; ++i)
 	  for (j = 0; j < n2; ++j)
@@ -657,16 +668,20 @@ void print_material_grids_deps_du(void)
 void print_material_grids_deps_du_numeric(double du)
 {
      int i, j, k;
-     int n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
+     int n1, n2, n3;
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
-     double *u = (double *) malloc(sizeof(double) * ntot);
-     double *v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
-     double *ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
-     double *foo;
+     double *u, *v, *ep;
      int iu;
 
+     CHECK(mdata, "init-params must be called before "
+	   "print-material-grids-deps-du-numeric");
+     stored_grid_size(&n1, &n2, &n3);
+     u = (double *) malloc(sizeof(double) * ntot);
+     v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
+     ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
+
      material_grids_get(u, grids, ngrids);
      reset_epsilon();
 
-- 
2.43.0


From 31f40a9e9b7d56a5103e7bde1e2605e38e6e5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 51/59] fix: evectmatrix_aXpbY with a=0 (X = Y times the
 identity) multiplied uninitialized memory by zero, so that a NaN or infinity
 there spoiled the result (Davidson solver)

---
 src/matrices/evectmatrix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index 49d9ff1..e366fe1 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -95,7 +95,12 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
      if (X.data == Y.data)
 	  blasglue_rscal(X.n * X.p, a + b, X.data, 1);
      else {
-	  if (a != 1.0)
+	  if (a == 0.0) { /* don't scale: X may be uninitialized */
+	       int i;
+	       for (i = 0; i < X.n * X.p; ++i)
+		    ASSIGN_ZERO(X.data[i]);
+	  }
+	  else if (a != 1.0)
 	       blasglue_rscal(X.n * X.p, a, X.data, 1);
 
 	  blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
-- 
2.43.0


From d8624fb1a7fe68c0ed56529eeea3ae5d86bd7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 52/59] fix: mpb-split launched the first chunk twice and
 printed its results twice

---
 mpb/mpb-split-preinstall.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index 21b9717..a39a4e7 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -15,7 +15,7 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # to be output later.
 ./mpb interactive?=false k-split-index=0 k-split-num=$* &
 subprocesses="$subprocesses $!"
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
     subprocesses="$subprocesses $!"
@@ -24,7 +24,7 @@ done
 
 # After all mpb processes have finished, concatenate their outputs in order.
 wait
-i=0
+i=1
 while test `expr $i \< $1` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
-- 
2.43.0


From 2a6f8b09ab644509880686f1c626feabd1d76037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 53/59] fix: mpb-split broke mpb arguments that contain spaces

---
 mpb/mpb-split-preinstall.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index a39a4e7..4a98e68 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -13,11 +13,11 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # Run num-split instances of mpb, each with a chunk of k-points, with
 # the first chunk going to stdout and the rest going to temporary files
 # to be output later.
-./mpb interactive?=false k-split-index=0 k-split-num=$* &
+./mpb interactive?=false k-split-index=0 k-split-num="$@" &
 subprocesses="$subprocesses $!"
 i=1
 while test `expr $i \< $1` = 1; do
-    ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
+    ./mpb interactive?=false k-split-index=$i k-split-num="$@" > $tmpname.$i &
     subprocesses="$subprocesses $!"
     i=`expr $i + 1`
 done
-- 
2.43.0


From 18150814a0b55f6d4e50d6534e13006a383c08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 54/59] fix: with an empty k point list every chunk of a split
 run wrote the same epsilon file, processes started by mpb-split crashing each
 other

---
 mpb/mpb.scm.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index aa11626..49d965f 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -653,7 +653,7 @@
 	       (if (string? reset-fields) (load-eigenvectors reset-fields)))
    (let ((k-split (list-split k-points k-split-num k-split-index)))
      (set-kpoint-index (car k-split))
-     (if (zero? (car k-split))
+     (if (zero? k-split-index)
 	 (begin 
            (output-epsilon) ; output epsilon immediately for 1st k block
            (if (using-mu?) (output-mu)))) ; and mu too, if we have it
-- 
2.43.0


From 12093bc9282d73da6862100a072e863651adb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 55/59] fix: gradient of material-grid products where a grid
 value is zero

---
 mpb/material_grid.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 0522ef6..1eb0f0a 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -95,11 +95,14 @@ static int compatible_matgrids(const material_grid *mg,
 }
 
 static int matgrid_val_count = 0; /* cache for gradient calculation */
+static int matgrid_val_nzero = 0; /* number of zero u's ... */
+static double matgrid_val_uprod_nz = 1.0; /* ... and product of the others */
 double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   const material_grid *mg)
 {
      double uprod = 1.0, umin = 1.0, usum = 0.0, u;
-     matgrid_val_count = 0;
+     matgrid_val_count = matgrid_val_nzero = 0;
+     matgrid_val_uprod_nz = 1.0;
      CHECK(sizeof(real) == sizeof(double), "material grids require double precision");
      if (tp) {
 	  do {
@@ -109,6 +112,7 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		    .subclass.material_grid_data);
 	       if (u < umin) umin = u;
 	       uprod *= u;
+	       if (u == 0) ++matgrid_val_nzero; else matgrid_val_uprod_nz *= u;
 	       usum += u; ++matgrid_val_count;
 	       tp = geom_tree_search_next(p, tp, &oi);
 	  } while (tp &&
@@ -122,6 +126,7 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
 	  uprod *= u;
+	  if (u == 0) ++matgrid_val_nzero; else matgrid_val_uprod_nz *= u;
 	  usum += u; ++matgrid_val_count;
      }
      return (mg->material_grid_kind == U_MIN ? umin
@@ -298,7 +303,12 @@ static int add_interpolate_weights(real rx, real ry, real rz, real *data,
 	   (U(x,y2,z2)*(1.0-dx) + U(x2,y2,z2)*dx) * dy) * dz);
 
      if (ukind == U_MIN && u != uval) return 0;
-     if (ukind == U_PROD) scaleby *= uval / u;
+     if (ukind == U_PROD) {
+	  if (u != 0)
+	       scaleby *= uval / u;
+	  else /* the product of the other u's, zero if one of them is */
+	       scaleby *= matgrid_val_nzero > 1 ? 0.0 : matgrid_val_uprod_nz;
+     }
 
      D(x,y,z) += (1.0-dx) * (1.0-dy) * (1.0-dz) * scaleby;
      D(x2,y,z) += dx * (1.0-dy) * (1.0-dz) * scaleby;
-- 
2.43.0


From 22e41be1d82f0d4482f9e536000514e669a3853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 56/59] fix: refuse num-bands above the number of modes of the
 grid

---
 mpb/mpb.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 2d704e2..b245c50 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -651,6 +651,10 @@ void solve_kpoint(vector3 kvector)
      update_maxwell_data_k(mdata, k, G[0], G[1], G[2]);
      CHECK(mdata->parity == prev_parity,
 	   "k vector is incompatible with specified parity");
+     CHECK(num_bands <= H.N * (mdata->nz == 1 &&
+			       (mdata->parity & (EVEN_Z_PARITY | ODD_Z_PARITY))
+			       ? 1 : 2),
+	   "num-bands exceeds the number of modes of the grid");
 
      CHK_MALLOC(eigvals, real, num_bands);
 
-- 
2.43.0


From f018269dbeb7beb4251deeac8f941ef6823b4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:56 +0000
Subject: [PATCH 57/59] fix: field output of mpbi-mpi with processes that hold
 no part of the grid

---
 mpb/fields.c             | 5 +++++
 src/maxwell/maxwell_op.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index b306d4c..16f6176 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1073,6 +1073,11 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  last_dim_start = local_dims[last_dim_index];
 	  last_dim_size = dims[last_dim_index] - local_dims[last_dim_index];
      }
+     if (local_dims[0] == 0) { /* no part of the field is on this process */
+	  first_dim_start = first_dim_size = 0;
+	  last_dim_start = last_dim_size = 0;
+	  write_start0_special = 0;
+     }
 #  endif /* ! SCALAR_COMPLEX */
      output_k[0] = R[1][0]*mdata->current_k[0] + R[1][1]*mdata->current_k[1]
 	  + R[1][2]*mdata->current_k[2];
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index 3245280..70e2d36 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -655,6 +655,8 @@ void maxwell_vectorfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is on this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -859,6 +861,8 @@ void maxwell_cscalarfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is on this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -1058,6 +1062,8 @@ void maxwell_scalarfield_otherhalf(maxwell_data *d, real *field)
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* no part of the field is on this process */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
-- 
2.43.0


From 037735fe9c8a5ca6d4af57219931e57a33602f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 58/59] fix: with randomize-fields? the fields were randomised
 after each solve, so that band functions saw random fields instead of the
 solution

---
 mpb/mpb.scm.in | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 49d965f..583a99a 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -175,6 +175,7 @@
 ; only be called after init-params.
 (define-external-function randomize-fields false false no-return-value)
 (define-param randomize-fields? false) ; whether to always randomize
+                                       ; before solving for a k point
 
 ; (solve-kpoint kpoint) solves for the specified bands at the given k point.
 ; Requires that (init-params) has been called, and does not re-read the
@@ -639,9 +640,6 @@
 ; every k point.  These are typically used to output the bands.
 
 (define (run-parity p reset-fields . band-functions)
- (if (and randomize-fields?
-          (not (member randomize-fields band-functions)))
-     (set! band-functions (cons randomize-fields band-functions)))
  (set! total-run-time (+ total-run-time
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
@@ -661,6 +659,7 @@
 	 (begin
 	   (map (lambda (k)
 		  (set! current-k k)
+		  (if randomize-fields? (randomize-fields))
 		  (begin-time "elapsed time for k point: " (solve-kpoint k))
 		  (set! all-freqs (cons freqs all-freqs))
 		  (set! band-range-data 
-- 
2.43.0


From b6375902b22f5ed87bc660951944b936a6604af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:42 +0000
Subject: [PATCH 59/59] fix: with allow-negative-epsilon the D field was scaled
 by omega^2 instead of omega

---
 mpb/fields.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 16f6176..3fcf7a4 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -100,7 +100,10 @@ void get_dfield(int which_band)
 	  N = mdata->fft_output_size;
 
 	  if (band_freq(which_band) != 0.0) {
-	       scale = -1.0 / band_freq(which_band);
+	       /* if negative epsilon is allowed, freqs holds omega^2 */
+	       scale = -1.0 / (negative_epsilon_okp
+			       ? sqrt(fabs(band_freq(which_band)))
+			       : band_freq(which_band));
 	  }
 	  else
 	       scale = -1.0; /* arbitrary */
-- 
2.43.0

