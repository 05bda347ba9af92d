// Life-time tracking of the objects of generated workloads: every tracked object has a number, and its state is checked whenever it is touched.
#pragma once
#include <vt/vt.hpp>
namespace vt {
int born();                       // vt_support.cpp: the number of a new object
void died(int id, void const *p); // reports objects that die twice
void fault(char const *what, int id);
class Tr {
	unsigned magic_;
	int id_;
	Tr const *self_;

public:
	Tr() : magic_(0x600DF00D), id_(born()), self_(this) {}
	Tr(Tr const &o) : magic_(0x600DF00D), id_(born()), self_(this) { o.id(); }
	Tr &operator=(Tr const &o) { id(); o.id(); return *this; }
	~Tr() { id(); died(id_, this); magic_ = 0xDEADDEAD; self_ = nullptr; }
	int id() const
	{
		if( magic_ != 0x600DF00D or self_ != this ) { fault("use of a dead object", magic_ == 0xDEADDEAD ? id_ : -1); return -1; }
		return id_;
	}
};
} // namespace vt
