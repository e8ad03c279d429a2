// Loads a mesh by the public MESIO API and dumps, per rank, everything the API exposes.
#include "mesio.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

static FILE *f;
static void ints(const char *name, const int *v, long n) { fprintf(f, "%s %ld", name, n); for (long i = 0; i < n; ++i) fprintf(f, " %d", v[i]); fprintf(f, "\n"); }

int main(int argc, char **argv)
{
    int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
    int rank, size;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
    // argv: format path decomposer domains outprefix
    MESIO m = NULL;
    MESIOInit(MPI_COMM_WORLD, 0);
    MESIOLoad(&m, (MESIOFormat)atoi(argv[1]), argv[2], (MESIODecomposer)atoi(argv[3]), atoi(argv[4]));

    f = fopen((std::string(argv[5]) + "." + std::to_string(rank)).c_str(), "w");
    MESIOInt nhalo, offset, nsize, total, *ids, *pos, *dist, *type, *data, *dom;
    int *rdata; MESIOReal *x;
    MESIONodes(m, &nhalo, &offset, &nsize, &total, &ids, &pos, &x);
    int nn = nhalo + nsize;
    fprintf(f, "nodes %d %d %d %d\n", nhalo, offset, nsize, total);
    ints("nid", ids, nn); ints("npos", pos, nn);
    fprintf(f, "coo %d", 3 * nn); for (int i = 0; i < 3 * nn; ++i) fprintf(f, " %.17g", x[i]); fprintf(f, "\n");
    MESIONodesRanks(m, &dist, &rdata); ints("nrankdist", dist, nn + 1); ints("nrank", rdata, dist[nn]);
    MESIOInt esize, etotal, eoffset;
    MESIOElements(m, &eoffset, &esize, &etotal, &type, &dist, &data);
    fprintf(f, "elements %d %d %d\n", eoffset, esize, etotal);
    ints("etype", type, esize); ints("edist", dist, esize + 1); ints("enode", data, dist[esize]);
    MESIOElementsDomains(m, &dom); ints("edom", dom, esize);
    int *mat; MESIOElementsMaterials(m, &mat); ints("emat", mat, esize);
    int bodies, *body; MESIOElementsBodies(m, &bodies, &body); fprintf(f, "bodies %d\n", bodies); ints("ebody", body, esize);
    MESIOElementsNeighbors(m, &dist, &data); ints("neighdist", dist, esize + 1); ints("neigh", data, dist[esize]);
    for (int t = 0; t < MESIOElementType::SIZE; ++t) { MESIOInt o, s; MESIOElementsCounters(m, t, &o, &s); fprintf(f, "ecounter %d %d %d\n", t, o, s); }
    int R = MESIOElementsRegions(m);
    for (int r = 0; r < R; ++r) {
        const char *name; MESIOInt s, *el;
        MESIOElementsRegion(m, r, &name, &s, &el);
        fprintf(f, "eregion %s\n", name); ints("relems", el, s);
        for (int t = 0; t < MESIOElementType::SIZE; ++t) { MESIOInt o, c; MESIOElementsRegionCounters(m, r, t, &o, &c); fprintf(f, "rcounter %d %d %d\n", t, o, c); }
        MESIOInt h, o, sz, tot, *nodes, *p;
        MESIOElementsRegionNodes(m, r, &h, &o, &sz, &tot, &nodes, &p);
        fprintf(f, "rnodes %d %d %d %d\n", h, o, sz, tot); ints("rnode", nodes, h + sz); ints("rnpos", p, h + sz);
    }
    R = MESIOBoundaryRegions(m);
    for (int r = 0; r < R; ++r) {
        const char *name; MESIOInt dim, s, *ty, *par, *d, *nd;
        MESIOBoundaryRegion(m, r, &name, &dim, &s, &ty, &par, &d, &nd);
        fprintf(f, "bregion %s\n", name); fprintf(f, "bdim %d %d\n", dim, s);
        if (dim) { ints("btype", ty, s); ints("bparent", par, s); ints("bdist", d, s + 1); ints("bnode", nd, d[s]);
            for (int t = 0; t < MESIOElementType::SIZE; ++t) { MESIOInt o, c; MESIOBoundaryRegionCounters(m, r, t, &o, &c); fprintf(f, "rcounter %d %d %d\n", t, o, c); } }
        MESIOInt h, o, sz, tot, *nodes, *p;
        MESIOBoundaryRegionNodes(m, r, &h, &o, &sz, &tot, &nodes, &p);
        fprintf(f, "rnodes %d %d %d %d\n", h, o, sz, tot); ints("rnode", nodes, h + sz); ints("rnpos", p, h + sz);
    }
    { MESIOInt *dd; MESIOInt *dv;
    MESIONodesDomains(m, &dd, &dv); ints("ndomdist", dd, nn + 1); ints("ndom", dv, dd[nn]); }
    fprintf(f, "end\n");
    fclose(f);
    MESIOFinalize();
    MPI_Finalize();
    return 0;
}
