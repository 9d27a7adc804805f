// Eigen values and clouds <-> JSON (numbers are strings)
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "vjson.hpp"
static inline std::vector<double> Vec(const json & j) {std::vector<double> v; for (auto & x : j) v.push_back(N(x)); return v;}
static inline Eigen::VectorXd EV(const json & j) {Eigen::VectorXd v(j.size()); for (size_t i = 0; i < j.size(); i++) v(i) = N(j[i]); return v;}
static inline Eigen::MatrixXd EM(const json & j, int cols = 0)
{
  const int c = j.empty() ? cols : int(j[0].size()); Eigen::MatrixXd m(j.size(), c);
  for (size_t i = 0; i < j.size(); i++) for (int k = 0; k < c; k++) m(i, k) = N(j[i][k]);
  return m;
}
static inline Eigen::Quaterniond EQ(const json & j) {return Eigen::Quaterniond(N(j[0]), N(j[1]), N(j[2]), N(j[3]));}
// pose: {"q":[w,x,y,z],"p":[x,y,z]}
static inline Eigen::Isometry3d EP(const json & j)
{ Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); t.linear() = EQ(j.at("q")).normalized().toRotationMatrix(); t.translation() = EV(j.at("p")); return t; }
template<typename D> static inline json JM(const Eigen::MatrixBase<D> & m0)
{
  const Eigen::MatrixXd m = m0; json r = json::array();
  for (int i = 0; i < m.rows(); i++) {json row = json::array(); for (int k = 0; k < m.cols(); k++) row.push_back(S(m(i, k))); r.push_back(row);}
  return r;
}
template<typename D> static inline json JV(const Eigen::MatrixBase<D> & m0)
{ const Eigen::VectorXd v = m0; json r = json::array(); for (int i = 0; i < v.size(); i++) r.push_back(S(v(i))); return r; }
static inline json JS(const std::vector<double> & v) {json r = json::array(); for (double x : v) r.push_back(S(x)); return r;}
static inline json JQ(const Eigen::Quaterniond & q) {return {S(q.w()), S(q.x()), S(q.y()), S(q.z())};}
// pose as the upper 3x4 of its matrix
static inline json JP(const Eigen::Isometry3d & t) {return JM(t.matrix().topRows(3));}
template<typename V> static inline json JMs(const V & v) {json r = json::array(); for (auto & m : v) r.push_back(JM(m)); return r;}
template<typename V> static inline json JVs(const V & v) {json r = json::array(); for (auto & m : v) r.push_back(JV(m)); return r;}
static inline pcl::PointCloud<pcl::PointXYZ>::Ptr XYZ(const json & j)
{
  pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>());
  for (auto & p : j) c->push_back(pcl::PointXYZ(float(N(p[0])), float(N(p[1])), float(N(p[2])))); return c;
}
template<typename C> static inline json JC(const C & c) {json r = json::array(); for (auto & p : c) r.push_back({S(p.x), S(p.y), S(p.z)}); return r;}
// a value or a refusal
template<typename F> static json Try(F f) {try {return {{"ok", true}, {"v", f()}};} catch (const std::logic_error &) {return {{"ok", false}};}}
