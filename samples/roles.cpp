// Programs on which the rules of C16 are known to fire (bad_*) and not to fire (ok_*).
#include <vector>
#include <utility>
#include <algorithm>
#include <cmath>
#include <boost/shared_ptr.hpp>
typedef std::vector<std::vector<float> > vec2;
typedef std::vector<std::vector<int> > vec2Int;
class Field {
   public:
      Field(int nY, int nX, int nEns, float fill);
      float operator()(unsigned int y, unsigned int x, unsigned int e) const;
      float& operator()(unsigned int y, unsigned int x, unsigned int e);
      int getNumY() const;
      int getNumX() const;
      int getNumEns() const;
};
typedef boost::shared_ptr<Field> FieldPtr;
class File {
   public:
      FieldPtr getField(int v, int t) const;
      FieldPtr getEmptyField(int nY, int nX, int nEns) const;
      vec2 getLats() const;
      vec2 getLons() const;
      vec2 getElevs() const;
      bool setElevs(vec2 elevs) const;
      int getNumY() const;
      int getNumX() const;
      int getNumEns() const;
      int getNumTime() const;
};
class Location {
   public:
      Location(float lat, float lon, float elev = 0);
      float lat() const;
      float lon() const;
      float elev() const;
};
namespace Util { float getDistance(float lat1, float lon1, float lat2, float lon2); }

void ok_copy(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) for(int e = 0; e < a.getNumEns(); e++) b(i, j, e) = a(i, j, e); }
void bad_exchanged(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) for(int e = 0; e < a.getNumEns(); e++) b(i, j, e) = a(j, i, e); }
void bad_extent(const Field& a, Field& b) { for(int i = 0; i < a.getNumX(); i++) for(int j = 0; j < a.getNumY(); j++) b(i, j, 0) = a(i, j, 0); }
void bad_member(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) for(int e = 0; e < a.getNumEns(); e++) b(i, j, e) = a(i, e, j); }
void bad_vector(const File& f, Field& b) { vec2 elevs = f.getElevs(); for(int i = 0; i < f.getNumY(); i++) for(int j = 0; j < f.getNumX(); j++) b(i, j, 0) = elevs[j][i]; }
void ok_transposed(const File& f, Field& b) { vec2 e = f.getElevs(); vec2 tr(f.getNumX(), std::vector<float>(f.getNumY())); for(int i = 0; i < f.getNumY(); i++) for(int j = 0; j < f.getNumX(); j++) { tr[j][i] = e[i][j]; b(i, j, 0) = tr[j][i]; } }
void bad_transposed(const File& f, Field& b) { vec2 e = f.getElevs(); vec2 tr(f.getNumX(), std::vector<float>(f.getNumY())); for(int i = 0; i < f.getNumY(); i++) for(int j = 0; j < f.getNumX(); j++) { tr[j][i] = e[i][j]; b(i, j, 0) = tr[i][j]; } }

// helpers
float ok_value(const Field& f, int p, int q) { return f(p, q, 0); }
void ok_helped(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) b(i, j, 0) = ok_value(a, i, j); }
void bad_helped(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) b(i, j, 0) = ok_value(a, j, i); }
int ok_clamp(int v, int n) { return std::min(v, n - 1); }
void ok_clamped(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) b(i, j, 0) = a(ok_clamp(i + 1, a.getNumY()), ok_clamp(j + 1, a.getNumX()), 0); }
void bad_clamped(const Field& a, Field& b) { for(int i = 0; i < a.getNumY(); i++) for(int j = 0; j < a.getNumX(); j++) b(i, j, 0) = a(ok_clamp(i + 1, a.getNumX()), ok_clamp(j + 1, a.getNumX()), 0); }

// coordinates
float ok_distance(const Location& a, const Location& b) { return Util::getDistance(a.lat(), a.lon(), b.lat(), b.lon()); }
float bad_distance(const Location& a, const Location& b) { return Util::getDistance(a.lat(), a.lon(), b.lon(), b.lat()); }
Location ok_place(const File& f, int i, int j) { return Location(f.getLats()[i][j], f.getLons()[i][j]); }
Location bad_place(const File& f, int i, int j) { return Location(f.getLons()[i][j], f.getLats()[i][j]); }
void bad_set(const File& f) { vec2 lats = f.getLats(); f.setElevs(lats); }
bool bad_compared(const Location& a, const Location& b) { return a.lat() < b.lon(); }
bool ok_compared(const Location& a, const Location& b) { return a.lat() < b.lat() && std::fabs(a.lon() - b.lon()) < 1; }

// two grids
struct S {
   void ok_downscaleCore(const File& iInput, File& iOutput) const {
      vec2 elevs = iOutput.getElevs();
      for(int i = 0; i < iOutput.getNumY(); i++) for(int j = 0; j < iOutput.getNumX(); j++) (*iOutput.getField(0, 0))(i, j, 0) = elevs[i][j];
   }
   void bad_downscaleCore(const File& iInput, File& iOutput) const {
      vec2 elevs = iInput.getElevs();
      for(int i = 0; i < iOutput.getNumY(); i++) for(int j = 0; j < iOutput.getNumX(); j++) (*iOutput.getField(0, 0))(i, j, 0) = elevs[i][j];
   }
   void bad_field_downscaleCore(const File& iInput, File& iOutput) const {
      Field& a = *iInput.getField(0, 0);
      Field& b = *iOutput.getField(0, 0);
      for(int i = 0; i < b.getNumY(); i++) for(int j = 0; j < b.getNumX(); j++) b(i, j, 0) = a(i, j, 0);
   }
   void ok_same_downscaleCore(const File& iInput, File& iOutput) const {
      Field& a = *iInput.getField(0, 0);
      Field& b = *iOutput.getField(0, 0);
      if(iInput.getNumY() != iOutput.getNumY() || iInput.getNumX() != iOutput.getNumX()) return;
      for(int i = 0; i < b.getNumY(); i++) for(int j = 0; j < b.getNumX(); j++) b(i, j, 0) = a(i, j, 0);
   }
   void bad_extent_downscaleCore(const File& iInput, File& iOutput) const {
      Field& b = *iOutput.getField(0, 0);
      int n = iInput.getNumY();
      for(int i = 0; i < n; i++) for(int j = 0; j < b.getNumX(); j++) b(i, j, 0) = 0;
   }
};
void bad_time(const File& f) { for(int t = 0; t < f.getNumTime(); t++) { Field& a = *f.getField(0, t); for(int e = 0; e < f.getNumEns(); e++) a(0, 0, t) = 0; } }
void ok_time(const File& f) { for(int t = 0; t < f.getNumTime(); t++) { Field& a = *f.getField(0, t); for(int e = 0; e < f.getNumEns(); e++) a(0, 0, e) = 0; } }
void bad_timebound(const File& f) { for(int t = 0; t < f.getNumEns(); t++) { Field& a = *f.getField(0, t); a(0, 0, 0) = 0; } }
void ok_reused(const Field& a, Field& b) { int n = a.getNumY(); for(int i = 0; i < n; i++) b(i, 0, 0) = 0; n = a.getNumX(); for(int j = 0; j < n; j++) b(0, j, 0) = 0; }
void bad_reused(const Field& a, Field& b) { int n = a.getNumY(); for(int i = 0; i < n; i++) b(i, 0, 0) = 0; n = a.getNumX(); for(int j = 0; j < n; j++) b(j, 0, 0) = 0; }
void ok_choice(const Field& a, Field& b, bool rows) { int n = a.getNumX(); if(rows) n = a.getNumY(); for(int j = 0; j < n; j++) { int k = j / n; b(0, k, 0) = n; } }
