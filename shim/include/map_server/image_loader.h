// Reads binary PGM (P5); same cell rule as map_server.
#ifndef SHIM_IMAGE_LOADER_H
#define SHIM_IMAGE_LOADER_H
#include <cmath>
#include <cstdio>
#include <fstream>
#include <nav_msgs/GetMap.h>
#include <stdexcept>
#include <string>
#include <vector>
enum MapMode
{
  TRINARY,
  SCALE,
  RAW
};
namespace map_server
{
inline void loadMapFromFile(nav_msgs::GetMapResponse* resp, const char* fname, double res, bool negate, double occ_th, double free_th,
                            double* origin, MapMode mode = TRINARY)
{
  std::ifstream f(fname, std::ios::binary);
  std::string magic;
  auto tok = [&f]()
  {
    std::string s;
    while (f >> s)
    {
      if (s[0] != '#')
        return s;
      std::getline(f, s);
    }
    return std::string();
  };
  magic = tok();
  if (magic != "P5")
    throw std::runtime_error(std::string("failed to open image file \"") + fname + "\"");
  const int w = atoi(tok().c_str()), h = atoi(tok().c_str());
  const int mx = atoi(tok().c_str());
  f.get();
  if (w <= 0 || h <= 0 || mx <= 0)
    throw std::runtime_error(std::string("broken image file \"") + fname + "\"");
  std::vector<unsigned char> d(static_cast<size_t>(w) * h);
  f.read(reinterpret_cast<char*>(d.data()), d.size());
  resp->map.info.width = w;
  resp->map.info.height = h;
  resp->map.info.resolution = res;
  resp->map.info.origin.position.x = origin[0];
  resp->map.info.origin.position.y = origin[1];
  resp->map.info.origin.position.z = 0;
  resp->map.info.origin.orientation.z = std::sin(origin[2] / 2);
  resp->map.info.origin.orientation.w = std::cos(origin[2] / 2);
  resp->map.data.resize(d.size());
  for (int j = 0; j < h; j++)
    for (int i = 0; i < w; i++)
    {
      double c = d[static_cast<size_t>(j) * w + i];
      if (negate)
        c = 255 - c;
      const size_t o = static_cast<size_t>(h - j - 1) * w + i;
      if (mode == RAW)
      {
        resp->map.data[o] = static_cast<int8_t>(c);
        continue;
      }
      const double occ = (255 - c) / 255.0;
      if (occ > occ_th)
        resp->map.data[o] = 100;
      else if (occ < free_th)
        resp->map.data[o] = 0;
      else if (mode == TRINARY)
        resp->map.data[o] = -1;
      else
        resp->map.data[o] = 99 * (occ - free_th) / (occ_th - free_th);
    }
}
}  // namespace map_server
#endif
