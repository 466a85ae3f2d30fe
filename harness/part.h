/* every assignment of cells to processes */
static int PART[MAXC];
static PetscErrorCode make_part(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode ierr = make_dm(comm, ctx, dm); if (ierr) return ierr;
  int n; MPI_Comm_size(comm, &n);
  if (n == 1) return 0;
  PetscPartitioner pt; PetscInt sz[8] = {0}, pts[MAXC], cs, ce, k = 0;
  DMPlexGetHeightStratum(*dm, 0, &cs, &ce);
  for (int p = 0; p < n; ++p) for (PetscInt c = cs; c < ce; ++c) if (PART[c] == p) { sz[p]++; pts[k++] = c-cs; }
  ierr = DMPlexGetPartitioner(*dm, &pt); if (ierr) return ierr;
  ierr = PetscPartitionerSetType(pt, PETSCPARTITIONERSHELL); if (ierr) return ierr;
  return PetscPartitionerShellSetPartition(pt, n, sz, pts);
}
static long npart(int nc) { long np = 1; for (int i = 0; i < nc; ++i) np *= vh_size; return np; }
static const char *set_part(long p, int nc) {
  static char s[MAXC+1];
  for (int c = 0; c < nc; ++c) { PART[c] = p % vh_size; p /= vh_size; s[c] = '0'+PART[c]; } s[nc] = 0;
  return s;
}
/* the natural order: the order of the mesh before it is spread */
static double NATC[MAXC][3]; static int NNAT;
static int nat_of(const double *x) { for (int i = 0; i < NNAT; ++i) if (fabs(x[0]-NATC[i][0])+fabs(x[1]-NATC[i][1])+fabs(x[2]-NATC[i][2]) < 1e-8) return i; return -1; }
static int natural(prob *q, int nc) {
  DM d; CUR = q; if (make_dm(PETSC_COMM_SELF, q, &d)) return 1;
  Vec co; PetscSection sec; DM cdm; DMGetCoordinatesLocal(d, &co); DMGetCoordinateDM(d, &cdm); DMGetLocalSection(cdm, &sec);
  NNAT = nc;
  for (int c = 0; c < nc; ++c) { PetscInt n; PetscScalar *a = NULL; DMPlexVecGetClosure(cdm, sec, co, c, &n, &a);
    for (int e = 0; e < 3; ++e) { NATC[c][e] = 0; for (int v = 0; v < n/3; ++v) NATC[c][e] += a[3*v+e]/(n/3); }
    DMPlexVecRestoreClosure(cdm, sec, co, c, &n, &a); }
  DMDestroy(&d);
  return 0;
}
