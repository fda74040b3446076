// P10: what a mailbox stores and delivers, given whether the lock was obtained
#include "assume.hh"
#include <boost/thread/mutex.hpp>
#include <boost/thread/thread.hpp>
#include <sys/time.h>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/linear-algebra.h>
using namespace dynamicgraph;
namespace spec {
template <class Object>
struct MailboxTimestampedObject {
  Object obj;
  struct timeval timestamp;
};
template <class Object>
class Mailbox {
 public:
  boost::timed_mutex mainObjectMutex;
  Object mainObject;
  struct timeval mainTimeStamp;
  bool update;
  SignalTimeDependent<MailboxTimestampedObject<Object>, int> SOUT;
  // the newest object replaces the former one and is announced
  void post(const Object& v) {
    boost::timed_mutex::scoped_lock l(mainObjectMutex);
    update = true;
    gettimeofday(&mainTimeStamp, NULL);
    mainObject = v;
    SOUT.setReady();
  }
  // a reader that gets the lock takes object and date together; one that does
  // not keeps what it had
  MailboxTimestampedObject<Object>& get(MailboxTimestampedObject<Object>& r, const int&) {
    boost::timed_mutex::scoped_try_lock l(mainObjectMutex);
    if (!l.owns_lock()) return r;
    r.obj = mainObject;
    r.timestamp.tv_sec = mainTimeStamp.tv_sec;
    r.timestamp.tv_usec = mainTimeStamp.tv_usec;
    update = false;
    return r;
  }
  bool hasBeenUpdated() {
    boost::timed_mutex::scoped_try_lock l(mainObjectMutex);
    if (l.owns_lock()) return update;
    return false;
  }
  Object& getObject(Object& r, const int& t) {
    r = SOUT(t).obj;
    return r;
  }
  struct timeval& getTimestamp(struct timeval& r, const int& t) {
    r.tv_usec = SOUT(t).timestamp.tv_usec;
    r.tv_sec = SOUT(t).timestamp.tv_sec;
    return r;
  }
};
template class Mailbox<dynamicgraph::Vector>;
}  // namespace spec
