// Stand-in for libtess2 (not available offline); see tess.cc.
#ifndef VERIF_SHIM_TESS_H_
#define VERIF_SHIM_TESS_H_
enum TessWindingRule { TESS_WINDING_ODD, TESS_WINDING_NONZERO, TESS_WINDING_POSITIVE, TESS_WINDING_NEGATIVE, TESS_WINDING_ABS_GEQ_TWO };
enum TessElementType { TESS_POLYGONS, TESS_CONNECTED_POLYGONS, TESS_BOUNDARY_CONTOURS };
typedef float TESSreal;
typedef int TESSindex;
#define TESS_UNDEF (~(TESSindex)0)
struct TESSalloc;
struct TESStesselator;
TESStesselator* tessNewTess(TESSalloc* alloc);
void tessDeleteTess(TESStesselator* tess);
void tessAddContour(TESStesselator* tess, int size, const void* pointer, int stride, int count);
int tessTesselate(TESStesselator* tess, int windingRule, int elementType, int polySize, int vertexSize, const TESSreal* normal);
int tessGetVertexCount(TESStesselator* tess);
const TESSreal* tessGetVertices(TESStesselator* tess);
const TESSindex* tessGetVertexIndices(TESStesselator* tess);
int tessGetElementCount(TESStesselator* tess);
const TESSindex* tessGetElements(TESStesselator* tess);
#endif
