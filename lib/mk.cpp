// Instantiates the library's templates for the shared state type (see models.hpp).
#include "models.hpp"
int gHashMode=0;
int gOff=0,gStr=1;
Bounds* gLive=nullptr;
const Model* M=nullptr;
std::size_t coddVerifTableSize=2;
int coddVerifQueueSize=4;
AbstractDD::Ptr makeModelDD(const Model& m,LabelKind k) {
   M = &m;
   if (m.maximize)
      switch(k) {
         case LK_GNSET:  return mk<Maximize<double>,GNSet>(cb::lgfG);
         case LK_NATSET: return mk<Maximize<double>,NatSet<1>>(cb::lgfN);
         case LK_RANGE:  return mk<Maximize<double>,Range>(cb::lgfR);
         default:        return mk<Maximize<double>,Range>(cb::lgfB);
      }
   else
      switch(k) {
         case LK_GNSET:  return mk<Minimize<double>,GNSet>(cb::lgfG);
         case LK_NATSET: return mk<Minimize<double>,NatSet<1>>(cb::lgfN);
         case LK_RANGE:  return mk<Minimize<double>,Range>(cb::lgfR);
         default:        return mk<Minimize<double>,Range>(cb::lgfB);
      }
}
