// Two-input approximate time synchronisation (the algorithm of message_filters, for two queues, no inter-message bound).
#ifndef SHIM_MF_APPROX_H
#define SHIM_MF_APPROX_H
#include <ros/ros.h>
namespace message_filters
{
namespace sync_policies
{
template <class A, class B>
struct ApproximateTime
{
  typedef A M0;
  typedef B M1;
  explicit ApproximateTime(uint32_t q)
    : queue_size_(q)
  {
  }
  typedef boost::shared_ptr<A const> PA;
  typedef boost::shared_ptr<B const> PB;
  std::function<void(const PA&, const PB&)> out;
  void add0(const PA& m)
  {
    d0_.push_back(m);
    if (d0_.size() == 1)
    {
      if (!d1_.empty())
        process();
    }
    overflow(d0_.size() + p0_.size());
  }
  void add1(const PB& m)
  {
    d1_.push_back(m);
    if (d1_.size() == 1)
    {
      if (!d0_.empty())
        process();
    }
    overflow(d1_.size() + p1_.size());
  }

private:
  static constexpr int NO_PIVOT = 9;
  ros::Time t0() const
  {
    return d0_.front()->header.stamp;
  }
  ros::Time t1() const
  {
    return d1_.front()->header.stamp;
  }
  // virtual time used while a queue is empty: not before the pivot or the last message of that queue
  ros::Time vt(int i) const
  {
    if (i == 0)
      return d0_.empty() ? std::max(p0_.empty() ? ros::Time() : p0_.back()->header.stamp, pivot_time_) : t0();
    return d1_.empty() ? std::max(p1_.empty() ? ros::Time() : p1_.back()->header.stamp, pivot_time_) : t1();
  }
  void overflow(size_t n)
  {
    if (n <= queue_size_)
      return;
    recover();
    if (d0_.size() > queue_size_ || (p0_.size() + d0_.size()) > queue_size_)
      if (!d0_.empty())
        d0_.pop_front();
    if (d1_.size() > queue_size_)
      d1_.pop_front();
    has_dropped_ = true;
    if (pivot_ != NO_PIVOT)
    {
      c0_.reset();
      c1_.reset();
      pivot_ = NO_PIVOT;
      process();
    }
  }
  void recover()
  {
    while (!p0_.empty())
    {
      d0_.push_front(p0_.back());
      p0_.pop_back();
    }
    while (!p1_.empty())
    {
      d1_.push_front(p1_.back());
      p1_.pop_back();
    }
  }
  void makeCandidate()
  {
    c0_ = d0_.front();
    c1_ = d1_.front();
    p0_.clear();
    p1_.clear();
  }
  void publishCandidate()
  {
    const PA a = c0_;
    const PB b = c1_;
    c0_.reset();
    c1_.reset();
    pivot_ = NO_PIVOT;
    // recover everything and delete up to the candidate
    recover();
    while (!d0_.empty() && d0_.front() != a)
      d0_.pop_front();
    if (!d0_.empty())
      d0_.pop_front();
    while (!d1_.empty() && d1_.front() != b)
      d1_.pop_front();
    if (!d1_.empty())
      d1_.pop_front();
    out(a, b);
  }
  void moveFront(int i)
  {
    if (i == 0)
    {
      p0_.push_back(d0_.front());
      d0_.pop_front();
    }
    else
    {
      p1_.push_back(d1_.front());
      d1_.pop_front();
    }
  }
  void process()
  {
    while (!d0_.empty() && !d1_.empty())
    {
      const ros::Time a = t0(), b = t1();
      const int start = b < a ? 1 : 0, end = b < a ? 0 : 1;
      const ros::Time start_time = std::min(a, b), end_time = std::max(a, b);
      if (pivot_ == NO_PIVOT)
      {
        makeCandidate();
        cs_ = start_time;
        ce_ = end_time;
        pivot_ = end;
        pivot_time_ = end_time;
        moveFront(start);
      }
      else
      {
        if ((end_time - ce_) * (1 + age_penalty_) >= (start_time - cs_))
          moveFront(start);
        else
        {
          makeCandidate();
          cs_ = start_time;
          ce_ = end_time;
          moveFront(start);
        }
      }
      if (start == pivot_)
      {
        publishCandidate();
      }
      else if ((end_time - ce_) * (1 + age_penalty_) >= (pivot_time_ - cs_))
      {
        publishCandidate();
      }
      else if (d0_.empty() || d1_.empty())
      {
        // try with virtual times
        const ros::Time va = vt(0), vb = vt(1);
        const ros::Time ve = std::max(va, vb), vs = std::min(va, vb);
        (void)vs;
        if ((ve - ce_) * (1 + age_penalty_) >= (pivot_time_ - cs_))
          publishCandidate();
      }
    }
  }
  size_t queue_size_;
  std::deque<PA> d0_, p0_;
  std::deque<PB> d1_, p1_;
  PA c0_;
  PB c1_;
  ros::Time cs_, ce_, pivot_time_;
  int pivot_ = NO_PIVOT;
  double age_penalty_ = 0.1;
  bool has_dropped_ = false;
};
}  // namespace sync_policies
}  // namespace message_filters
#endif
