# The edits of refactor.py: each leaves what the library does as it was.
BY_FILE = {
    'vector.hpp': 'C01 C02 C13 C14 C15 C22 C23'.split(),
    'deque.hpp': 'C03 C04 C10 C13 C14 C15 C22'.split(),
    'list.hpp': 'C05 C13 C14 C15 C22 C31'.split(),
    'forward_list.hpp': 'C06 C13 C14 C15 C22 C31'.split(),
    'set.hpp': 'C07 C09 C13 C14 C15 C22'.split(),
    'map.hpp': 'C08 C09 C13 C14 C15 C22'.split(),
    'string.hpp': 'C11 C12 C13 C14 C15 C22 C19 C31'.split(),
    'queue.hpp': 'C10 C22'.split(),
    'memory.hpp': 'C16 C18 C21 C22'.split(),
    'shared_ptr.hpp': 'C17 C21 C22'.split(),
    'functional.hpp': 'C18 C22'.split(),
    'swap.hpp': 'C25 C07 C08 C22 C31'.split(),
    'cctype.hpp': 'C27 C22 C31'.split(),
    'istream.hpp': 'C19 C29 C22'.split(),
    'streambuf.hpp': 'C19 C29 C22'.split(),
    'sstream.hpp': 'C19 C29 C22'.split(),
    'basic_ios.hpp': 'C19 C29 C21 C22'.split(),
    'ostream.hpp': 'C21 C22 C31'.split(),
    'runtime_ostream.hpp': 'C21 C22 C31'.split(),
    'cstdio.hpp': 'C20 C22 C31'.split(),
    'cmath.hpp': 'C26 C28 C31'.split(),
    'complex.hpp': 'C24 C28 C31'.split(),
    'algorithm.hpp': 'C23 C31'.split(),
}
# ---- vector
edit('vec-growth', 'vector.hpp', ('0 == m_capacity ? 1 : m_capacity * 2',
     'm_capacity + m_capacity / 2 + 1'))
edit('vec-growth4', 'vector.hpp', ('0 == m_capacity ? 1 : m_capacity * 2', '0 == m_capacity ? 4 : m_capacity * 2'))
edit('vec-erase-move', 'vector.hpp', ('''    iterator it1 = first, it2 = last;
    for (; it2 != end(); it2++) {
      *it1++ = *it2;
    }
''', '''    std::move(last, end(), first);
'''))
edit('vec-erase-noop', 'vector.hpp', ('''    iterator it1 = first, it2 = last;
''', '''    if (first == last) return first;
    iterator it1 = first, it2 = last;
'''))
edit('vec-copy-exact', 'vector.hpp', ('''  {
    reserve(other.capacity());
    for (; m_size < other.size(); m_size++)''', '''  {
    reserve(other.size());
    for (; m_size < other.size(); m_size++)'''))
edit('vec-assign-size', 'vector.hpp', ('''    reserve(other.capacity());

    size_type i = 0;''', '''    if (this == &other) return *this;
    reserve(other.size());

    size_type i = 0;'''))
edit('vec-assign-copyswap', 'vector.hpp', ('''    reserve(other.capacity());

    size_type i = 0;
    if (other.size() >= m_size) {
      for (; i < m_size; i++)
        m_p[i] = other.m_p[i];
      for (; i < other.size(); i++, m_size++)
        std::construct_at(&m_p[i], other.m_p[i]);
    } else {
      for (; i < other.size(); i++)
        m_p[i] = other.m_p[i];
      std::destroy_n(&m_p[i], m_size - other.size());
    }

    m_size = other.size();
    return *this;''', '''    vector tmp(other);
    swap(tmp);
    return *this;'''))
edit('vec-init-reserve', 'vector.hpp', ('''  {
    for (const auto &x : init) { push_back(x); }''', '''  {
    reserve(init.size());
    for (const auto &x : init) { std::construct_at(m_p + m_size, x); ++m_size; }'''))
edit('vec-at-helper', 'vector.hpp', ('''    if (pos >= m_size) {
      throw std::out_of_range("error: index out of range in vector::at");
    }
    return m_p[pos];
  }
''', '''    return const_cast<reference>(static_cast<const vector&>(*this).at(pos));
  }
'''))
edit('vec-move-assign-clear', 'vector.hpp', ('''    swap(other);
    return *this;
  }

  constexpr vector& operator=(const''', '''    vector tmp(std::move(other));
    swap(tmp);
    return *this;
  }

  constexpr vector& operator=(const'''))
edit('vec-pushback-order', 'vector.hpp', ('''    if (m_capacity == m_size) {
      push_back_grow(value);
    } else {
      std::construct_at(&m_p[m_size],value);
      m_size++;
    }''', '''    if (m_size < m_capacity) {
      std::construct_at(end(), value);
      ++m_size;
      return;
    }
    push_back_grow(value);'''))
edit('vec-ranges-for-destroy', 'vector.hpp', ('''    std::destroy_n(m_p, m_size);
    m_size = 0;''', '''    while (m_size > 0) { --m_size; std::destroy_at(m_p + m_size); }'''))
edit('vec-reserve-round', 'vector.hpp', ('''    if (new_cap > m_capacity)
    {
      value_type *p''', '''    if (new_cap > m_capacity)
    {
      if (new_cap < 2 * m_capacity) new_cap = 2 * m_capacity;
      value_type *p'''))
edit('vec-eq-loop', 'vector.hpp', ('''{ return (__x.size() == __y.size()
          && std::equal(__x.begin(), __x.end(), __y.begin())); }''', '''{
  if (__x.size() != __y.size()) return false;
  for (std::size_t i = 0; i != __x.size(); ++i)
    if (!(__x[i] == __y[i])) return false;
  return true;
}'''))
# ---- deque
edit('deq-iter-helper', 'deque.hpp', ('''  constexpr       iterator  begin()       noexcept {
    return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
  }''', '''  constexpr iterator iter_at(size_type n) noexcept {
    const size_type pos = m_front + n;
    auto ppchunk = m_chunks.data() + (m_front_chunk + pos / CHUNK_SIZE);
    return {*ppchunk + pos % CHUNK_SIZE, ppchunk};
  }
  constexpr       iterator  begin()       noexcept { return iter_at(0); }'''),
  ('''  constexpr iterator          end()       noexcept {
    const size_type pos = m_front + m_size;
    auto ppchunk = &m_chunks[m_front_chunk + pos / CHUNK_SIZE];
    return {*ppchunk + pos % CHUNK_SIZE, ppchunk};
  }''', '''  constexpr iterator          end()       noexcept { return iter_at(m_size); }'''))
edit('deq-clear-pops', 'deque.hpp', ('''    for (size_type i = 0; i < size(); ++i)
      std::destroy_n(&(*this)[i], 1);
''', '''    while (!empty()) pop_back();
'''))
edit('deq-clear-keep', 'deque.hpp', ('''    m_front = CHUNK_SIZE / 2;
    m_back  = CHUNK_SIZE / 2 - 1;
    m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.
    m_size = 0;
  }

  constexpr void push_front( const''', '''    m_front = CHUNK_SIZE / 2;
    m_back  = CHUNK_SIZE / 2 - 1;
    m_front_chunk = m_back_chunk = 0;
    m_size = 0;
  }

  constexpr void push_front( const'''))
edit('deq-assign-copyswapless', 'deque.hpp', ('''    clear();
    for (size_type i = 0; i < other.size(); ++i)
      push_back(other[i]);
    return *this;''', '''    clear();
    for (const T& x : other) push_back(x);
    return *this;'''))
edit('deq-diff', 'deque.hpp', ('''      return CHUNK_SIZE
        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
        + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);''', '''      if (__x.m_ppchunk == __y.m_ppchunk) return __x.m_p - __y.m_p;
      const difference_type x = __x.m_p - *__x.m_ppchunk;
      const difference_type y = __y.m_p - *__y.m_ppchunk;
      return (__x.m_ppchunk - __y.m_ppchunk) * difference_type(CHUNK_SIZE) + x - y;'''))
edit('deq-spare-chunks', 'deque.hpp', ('''    if (m_back >= CHUNK_SIZE - 2 && m_back_chunk == m_chunks.size() - 1)
      add_chunk();''', '''    if (m_back_chunk == m_chunks.size() - 1)
      add_chunk();'''))
edit('deq-front-at-0', 'deque.hpp', ('''        add_chunk();
        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());''', '''        add_chunk();
        auto last = m_chunks.back();
        for (size_type i = m_chunks.size() - 1; i > 0; --i)
          m_chunks[i] = m_chunks[i - 1];
        m_chunks[0] = last;'''))
edit('deq-pop-order', 'deque.hpp', ('''    if (!empty()) {
      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
      pop_back_helper();
    }''', '''    if (empty()) return;
    T* p = &m_chunks[m_back_chunk][m_back];
    pop_back_helper();
    std::destroy_at(p);'''))
# ---- list
edit('list-link', 'list.hpp', ('''    new_node->next = p;
    new_node->prev = p->prev;
    p->prev->next = new_node;
    p->prev       = new_node;

    m_size++;
    return {new_node};
  }
  
  constexpr iterator insert(const_iterator pos, value_type&& value) {''', '''    new_node->m_hook(p);

    ++m_size;
    return {new_node};
  }
  
  constexpr iterator insert(const_iterator pos, value_type&& value) {'''))
edit('list-clear-pops', 'list.hpp', ('''    node_base* curr = m_node.next;
    while (curr != &m_node) {
      node* tmp = static_cast<node*>(curr);
      curr = curr->next;
      std::destroy_at(&tmp->value);
      m_node_alloc.deallocate(tmp, 1);
    }
    
    m_node.prev = m_node.next = &m_node;
    m_size = 0;''', '''    while (!empty()) pop_back();'''))
edit('list-copy-range-for', 'list.hpp', ('''    if (this == &other) return *this;
    clear();
    for (auto it = other.cbegin(); it != other.cend(); ++it)
      push_back(*it);
    return *this;''', '''    if (this != &other) {
      clear();
      for (const T& x : other) push_back(x);
    }
    return *this;'''))
edit('list-emplace-insert', 'list.hpp', ('''    insert(end(), value_type(std::forward<Args>(args)...));
    return back();''', '''    return *emplace(end(), std::forward<Args>(args)...);'''))
edit('list-destroy-node', 'list.hpp', ('''    node* tmp = static_cast<node*>(p);
    std::destroy_at(&tmp->value);
    m_node_alloc.deallocate(tmp, 1);

    return ret;''', '''    node* tmp = static_cast<node*>(p);
    std::destroy_at(tmp);
    m_node_alloc.deallocate(tmp, 1);

    return ret;'''))
edit('list-assign-reuse', 'list.hpp', ('''    clear();
    for (auto it = other.cbegin(); it != other.cend(); ++it)
      push_back(*it);
    return *this;''', '''    auto to = begin();
    auto it = other.cbegin();
    for (; it != other.cend() && !(to == end()); ++it, ++to)
      *to = *it;
    while (!(to == end())) to = erase(to);
    for (; it != other.cend(); ++it) push_back(*it);
    return *this;'''))
# ---- forward_list
edit('fl-erase-range-loop', 'forward_list.hpp', ('''    node_base* p = const_cast<node_base*>(first.m_node);
    node_base* l = const_cast<node_base*>(last.m_node);

    node* curr = static_cast<node*>(p->next);
    while (curr != l) {
      node* tmp  = curr;
      curr = static_cast<node*>(curr->next);
      std::destroy_at(&tmp->value);
      m_node_alloc.deallocate(tmp, 1);
    }

    p->next = l;
    return {l};''', '''    node_base* l = const_cast<node_base*>(last.m_node);
    while (first.m_node->next != l) erase_after(first);
    return {l};'''))
edit('fl-copy-insert', 'forward_list.hpp', ('''    while (from->next) {
      const node *nextf = static_cast<node*>(from->next);
      to->next = make_node(nextf->value);
      from     = from->next;
        to     =   to->next;
    }''', '''    for (; from->next; from = from->next)
      to = insert_after(const_iterator(to), static_cast<node*>(from->next)->value).m_node;'''))
edit('fl-empty', 'forward_list.hpp', ('return begin() == end(); }', 'return !m_front.next; }'))
edit('fl-assign-self', 'forward_list.hpp', ('''    forward_list tmp(x);
    this->swap(tmp);''', '''    if (this != &x) {
      forward_list tmp(x);
      std::swap(m_front.next, tmp.m_front.next);
    }'''))
# ---- set
FIND = '''    if (empty()) return end();

    node *n = m_root;
    while (n) {
      if      (m_comp(key,n->x)) { n = n->l; continue; }
      else if (m_comp(n->x,key)) { n = n->r; continue; }
      else                       {              break; }
    }

    return {n};'''
edit('set-find-lower', 'set.hpp', (FIND, '''    node *n = m_root, *lower = nullptr;
    while (n) {
      if (m_comp(n->x,key)) n = n->r;
      else                  { lower = n; n = n->l; }
    }
    return {lower && !m_comp(key,lower->x) ? lower : nullptr};'''))
edit('set-find-order', 'set.hpp', (FIND, '''    for (node *n = m_root; n; )
    {
      if      (m_comp(n->x,key)) n = n->r;
      else if (m_comp(key,n->x)) n = n->l;
      else return {n};
    }
    return end();'''))
edit('set-begin-walk', 'set.hpp', ('''        m_begin = first ? n : m_begin;
''', ''), ('''        const bool first = !m_begin || m_comp(value,m_begin->x);
''', ''), ('''    m_root->c = BLACK; // make_black
''', '''    m_root->c = BLACK; // make_black
    m_begin = m_root;
    while (m_begin->l) m_begin = m_begin->l;
'''))
edit('set-insert-find-first', 'set.hpp', ('''    bool added = false;
    node *ret_node = nullptr; // node''', '''    if (auto it = find(value); it != end()) return {it, false};
    bool added = false;
    node *ret_node = nullptr; // node'''))
edit('set-clear-iter', 'set.hpp', ('''    auto dd = [this](node *n, auto &dd_rec) -> void {
      if (n) {
        dd_rec(n->l,dd_rec);
        dd_rec(n->r,dd_rec);
        std::destroy_at(n);
        m_node_alloc.deallocate(n,1);
      }
    };
    dd(m_root,dd);
''', '''    node *n = m_root;
    while (n) {
      if (n->l)      n = n->l;
      else if (n->r) n = n->r;
      else {
        node *p = n->p;
        if (p) (p->l == n ? p->l : p->r) = nullptr;
        std::destroy_at(n);
        m_node_alloc.deallocate(n,1);
        n = p;
      }
    }
'''))
edit('set-node-ref', 'set.hpp', ('''constexpr node(value_type x, node* l, node* r, node* p, eCol c)''', '''constexpr node(const value_type &x, node* l, node* r, node* p, eCol c)'''))
edit('set-rotate-plain', 'set.hpp', ('''    node  *nr   = n->r;
    node *&nrlp = n->r->l ? n->r->l->p : nr;
    nary::swap(n,n->r,n->r->l, n->r->p,n->p,nrlp);''', '''    node *x = n, *y = n->r;
    x->r = y->l;
    if (x->r) x->r->p = x;
    y->p = x->p;
    y->l = x;
    x->p = y;
    n = y;'''))
edit('set-incr', 'set.hpp', ('''        node *pn = curr_node->p;
        while (pn && pn->r && curr_node==pn->r)
        {
          curr_node = pn;
          pn = pn->p;
        }
        curr_node = pn;''', '''        node *child;
        do {
          child = curr_node;
          curr_node = curr_node->p;
        } while (curr_node && curr_node->r == child);'''))
edit('set-plain-bst-iter-rb', 'set.hpp', ('''    ins(m_root,nullptr,ins);
    m_root->c = BLACK; // make_black
''', '''    ins(m_root,nullptr,ins);
    if (m_root->c == RED) m_root->c = BLACK; // make_black
'''))
# ---- map
edit('map-find-lower', 'map.hpp', ('''    if (empty()) return end();

    node *n = m_root;
    while (n) {
      if      (m_comp(key,n->x.first)) { n = n->l; continue; }
      else if (m_comp(n->x.first,key)) { n = n->r; continue; }
      else                             {              break; }
    }

    return iterator(n);''', '''    node *n = m_root, *lower = nullptr;
    while (n) {
      if (m_comp(n->x.first,key)) n = n->r;
      else                  { lower = n; n = n->l; }
    }
    return iterator(lower && !m_comp(key,lower->x.first) ? lower : nullptr);'''))
edit('map-node-ref', 'map.hpp', ('''constexpr node(value_type x, node* l''', '''constexpr node(const value_type &x, node* l'''))
edit('map-rotate-plain', 'map.hpp', ('''    node  *nl   = n->l;
    node *&nlrp = n->l->r ? n->l->r->p : nl;
    nary::swap(n,n->l,n->l->r, n->l->p,n->p,nlrp);''', '''    node *x = n, *y = n->l;
    x->l = y->r;
    if (x->l) x->l->p = x;
    y->p = x->p;
    y->r = x;
    x->p = y;
    n = y;'''))
edit('map-insert-find-first', 'map.hpp', ('''    bool added = false;
    node *ret_node = nullptr; // node''', '''    if (auto it = find(value.first); it != end()) return {it, false};
    bool added = false;
    node *ret_node = nullptr; // node'''))
# ---- string
edit('str-growth', 'string.hpp', ('''      reserve(m_capacity * 2);''', '''      reserve(m_capacity + m_capacity / 2 + 8);'''))
edit('str-empty-cap', 'string.hpp', ('''    m_capacity = 1;   ''', '''    m_capacity = 15;   '''))
edit('str-exact-cap', 'string.hpp', ('''    m_capacity = count+1;                    // ensure m_capacity is not 0
''', '''    m_capacity = count ? count : 1;
'''))
edit('str-append-chars', 'string.hpp', ('''    const size_type len = count + this->size();

    if (len <= this->capacity())
    {
      if (count)
        traits_type::copy(this->data() + this->size(), s, count);
    }
    else {
      value_type *p''', '''    const size_type len = count + this->size();

    if (len <= this->capacity())
    {
      for (size_type i = 0; i < count; ++i)
        traits_type::assign(m_p[m_size + i], s[i]);
    }
    else {
      value_type *p'''))
edit('str-append-grow', 'string.hpp', ('''      value_type *p = m_alloc.allocate(len+1);
      for (size_type i = 0; i < len+1; i++)
        std::construct_at(&p[i]);
      traits_type::copy(p, m_p, m_size);
      traits_type::copy(p + m_size, s, count);
      m_alloc.deallocate(m_p, m_capacity+1);
      m_p = p;
      m_size = len;
      m_capacity = len;''', '''      const size_type cap = len < 2*m_capacity ? 2*m_capacity : len;
      value_type *p = m_alloc.allocate(cap+1);
      for (size_type i = 0; i < cap+1; i++)
        std::construct_at(&p[i]);
      traits_type::copy(p, m_p, m_size);
      traits_type::copy(p + m_size, s, count);
      m_alloc.deallocate(m_p, m_capacity+1);
      m_p = p;
      m_capacity = cap;'''))
edit('str-find-naive', 'string.hpp', ('''    while (len >= count)
    {
      first = traits_type::find(first, len - count + 1, elem0);
      if (!first)
        return npos;
      if (traits_type::compare(first, s, count) == 0)
        return first - data;
      len = last - ++first;
    }

    return npos;''', '''    for (; len >= count; ++first, --len)
      if (traits_type::eq(*first, elem0) && !traits_type::compare(first, s, count))
        return first - data;
    (void)last;
    return npos;'''))
edit('str-compare-sign', 'string.hpp', ('''    const difference_type d = difference_type(n1 - n2);

    if (d > std::numeric_limits<int>::max())
      return std::numeric_limits<int>::max();
    else if (d < std::numeric_limits<int>::min())
      return std::numeric_limits<int>::min();
    else
      return int(d);''', '''    return n1 < n2 ? -1 : n1 > n2;'''))
edit('str-eq-chars', 'string.hpp', ('''  { return (__lhs.size() == __rhs.size()
            && !std::char_traits<_CharT>::compare(__lhs.data(), __rhs.data(),
                                                  __lhs.size())); }''', '''  {
    if (__lhs.size() != __rhs.size()) return false;
    for (std::size_t i = 0; i < __lhs.size(); ++i)
      if (__lhs[i] != __rhs[i]) return false;
    return true;
  }'''))
edit('str-pushback-append', 'string.hpp', ('''    const value_type value = ch; // reserve may release the storage ch is in
    if (m_size + 1 > m_capacity)
      reserve(m_capacity * 2);
    traits_type::assign(this->data()[  m_size], value);
    traits_type::assign(this->data()[++m_size], CharT()); // null terminator''', '''    const value_type value = ch;
    if (m_size == m_capacity)
      reserve(2 * m_capacity);
    append(&value, 1);'''))
# ---- queue
edit('q-move', 'queue.hpp', ('c.push_back(std::move(value)); }', 'c.push_back(static_cast<T&&>(value)); }'))
# ---- memory
edit('up-reset-swap', 'memory.hpp', ('''    auto ptr = ptr_;

    ptr_ = n_ptr;

    if (ptr)
      delete ptr;''', '''    pointer old = n_ptr;
    std::swap(old, ptr_);
    delete old;'''))
edit('up-move-assign', 'memory.hpp', ('''    reset(other.release());
    return *this;''', '''    unique_ptr tmp(other.release());
    std::swap(ptr_, tmp.ptr_);
    return *this;'''))
edit('up-dtor', 'memory.hpp', ('''    if (ptr_)
      delete ptr_;''', '''    reset();'''))
edit('up-dtor-exchange', 'memory.hpp', ('''    auto ptr = ptr_;
    ptr_ = nullptr;
    return ptr;''', '''    return std::exchange(ptr_, nullptr);'''))
# ---- shared_ptr
edit('sp-count-ref', 'shared_ptr.hpp', ('''    if (pctrl_ && !--pctrl_->count_)
    {
      pctrl_->destroy();
      delete pctrl_;
    }''', '''    if (!pctrl_) return;
    if (pctrl_->count_ > 1) { --pctrl_->count_; return; }
    ctrl* c = pctrl_;
    pctrl_ = nullptr;
    ptr_ = nullptr;
    c->count_ = 0;
    c->destroy();
    delete c;'''))
edit('sp-assign-self', 'shared_ptr.hpp', ('''    shared_ptr_base tmp{r};
    std::swap(ptr_,   tmp.ptr_);
    std::swap(pctrl_, tmp.pctrl_);
    return *this;''', '''    if (pctrl_ == r.pctrl_) { ptr_ = r.ptr_; return *this; }
    shared_ptr_base tmp{r};
    std::swap(ptr_,   tmp.ptr_);
    std::swap(pctrl_, tmp.pctrl_);
    return *this;'''))
edit('sp-delete-first-ctrl', 'shared_ptr.hpp', ('virtual constexpr void destroy() override { this->del_(ptr_); }', 'virtual constexpr void destroy() override { U* p = ptr_; ptr_ = nullptr; this->del_(p); }'))
# ---- functional
edit('fn-clone-ref', 'functional.hpp', ('''f_(f.f_ ? f.f_->clone() : nullptr) {}''', '''f_(nullptr) { if (f.f_) f_ = cest::unique_ptr<typename std::remove_reference_t<decltype(*f.f_->clone())>>(f.f_->clone()); }'''))
edit('fn-invoke', 'functional.hpp', ('''    return f_->operator()(std::forward<Args>(args)...);''', '''    auto& impl = *f_;
    return impl(std::forward<Args>(args)...);'''))
edit('fn-fwd-ctor', 'functional.hpp', ('''  constexpr impl_f(F f) : f_(std::move(f)) {}''', '''  constexpr impl_f(const F& f) : f_(f) {}
  constexpr impl_f(F&& f) : f_(std::move(f)) {}'''))
edit('fn-assign-selfcheck', 'functional.hpp', ('''    return *this = function(f);''', '''    if (this != &f) { function tmp(f); *this = std::move(tmp); }
    return *this;'''))
# ---- swap
edit('sw-recursive', 'swap.hpp', ('''  T tmp = std::move(x);
  struct wrap {
    constexpr wrap operator+(wrap &&w) { x = std::move(w.x); return     w; }
    T &x;
  };
  auto c = [](auto &...xs) { (... + wrap{xs}); };
  c(x,xs...,tmp);''', '''  T* ps[] = { &x, &xs... };
  T tmp = std::move(*ps[0]);
  for (std::size_t i = 1; i < 1 + sizeof...(xs); ++i)
    *ps[i - 1] = std::move(*ps[i]);
  *ps[sizeof...(xs)] = std::move(tmp);'''))
edit('sw-pairwise', 'swap.hpp', ('''  T tmp = std::move(x);
  struct wrap {
    constexpr wrap operator+(wrap &&w) { x = std::move(w.x); return     w; }
    T &x;
  };
  auto c = [](auto &...xs) { (... + wrap{xs}); };
  c(x,xs...,tmp);''', '''  T* prev = &x;
  ((std::swap(*prev, xs), prev = &xs), ...);'''))
# ---- cctype
edit('ct-ranges', 'cctype.hpp', ('''  string str("0123456789"
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
             "abcdefghijklmnopqrstuvwxyz"); // a raw string array includes \\0
  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 8 : 0;''', '''  return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z') ||
         (ch >= 'a' && ch <= 'z');'''))
edit('ct-upper', 'cctype.hpp', ('''  string str("ABCDEFGHIJKLMNOPQRSTUVWXYZ");
  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;''', '''  return ch >= 'A' && ch <= 'Z' ? 256 : 0;'''))
# ---- istream
edit('is-get-sgetc', 'istream.hpp', ('''        const int_type __cb = this->rdbuf()->sbumpc();''', '''        const int_type __cb = this->rdbuf()->sgetc();
        if (!traits_type::eq_int_type(__cb, traits_type::eof()))
          this->rdbuf()->sbumpc();'''), checks=['C19', 'C22'])
edit('is-read-loop', 'istream.hpp', ('''        _M_gcount = this->rdbuf()->sgetn(__s, __n);
''', '''        __streambuf_type* __sb = this->rdbuf();
        while (_M_gcount < __n)
          {
            const streamsize __got = __sb->sgetn(__s + _M_gcount, __n - _M_gcount);
            if (__got <= 0) break;
            _M_gcount += __got;
          }
'''), checks=['C19', 'C22'])
edit('is-unget-local', 'istream.hpp', ('''      this->clear(this->rdstate() & ~ios_base::eofbit);
      sentry''', '''      const ios_base::iostate __st = this->rdstate() & ~ios_base::eofbit;
      this->clear(__st);
      sentry'''))
# ---- cstdio etc. are added below
# ---- streambuf
edit('sb-xsgetn-bytes', 'streambuf.hpp', ('''        const streamsize __remaining = __n - __ret;
        const streamsize __len = std::min(__buf_len, __remaining);
        traits_type::copy(__s, this->gptr(), __len);
        __ret += __len;
        __s += __len;
        this->__safe_gbump(__len);''', '''        traits_type::assign(*__s++, *this->gptr());
        ++__ret;
        this->gbump(1);
        continue;'''))
edit('sb-sbumpc-ptr', 'streambuf.hpp', ('''    {                                                 
      __ret = traits_type::to_int_type(*this->gptr());
      this->gbump(1);
    }
    else
      __ret = this->uflow();''', '''      __ret = traits_type::to_int_type(*_M_in_cur++);
    else
      __ret = this->uflow();'''))
edit('sb-sungetc', 'streambuf.hpp', ('''      this->gbump(-1);
      __ret = traits_type::to_int_type(*this->gptr());
    }
    else
      __ret = this->pbackfail();''', '''      __ret = traits_type::to_int_type(this->gptr()[-1]);
      this->gbump(-1);
    }
    else
      __ret = this->pbackfail(traits_type::eof());'''))
edit('sb-snextc', 'streambuf.hpp', ('''    int_type __ret = traits_type::eof();
    if (__builtin_expect(!traits_type::eq_int_type(this->sbumpc(),
                   __ret), true))
      __ret = this->sgetc();
    return __ret;''', '''    if (traits_type::eq_int_type(this->sbumpc(), traits_type::eof()))
      return traits_type::eof();
    return this->sgetc();'''))
# ---- sstream
edit('ss-init-mode', 'sstream.hpp', ('''    _M_mode = __mode;
    __size_type __len = 0;
    if (_M_mode & (ios_base::ate | ios_base::app))
      __len = _M_string.size();
''', '''    _M_mode = __mode;
    const __size_type __len =
      _M_mode & (ios_base::ate | ios_base::app) ? _M_string.size() : 0;
'''))
edit('ss-nopbump', 'sstream.hpp', ('''      this->setp(__pbeg, __pend);
      while (__off > std::numeric_limits<int>::max())
  {
    this->pbump(std::numeric_limits<int>::max());
    __off -=   std::numeric_limits<int>::max();
  }

      this->pbump(__off);''', '''      this->setp(__pbeg, __pend);
      for (; __off > 0; --__off) this->pbump(1);'''))
edit('ss-str-copy', 'sstream.hpp', ('''    _M_string = __s;
    _M_stringbuf_init(_M_mode);''', '''    _M_string.assign(__s.data(), __s.size());
    _M_stringbuf_init(_M_mode);'''))
# ---- cstdio
edit('io-fprintf-string', 'cstdio.hpp', ('''    char *psz = new char[nbytes+1];
    std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
    (*stream) << string(psz, nbytes);
    delete [] psz;
    return nbytes;''', '''    std::string s(nbytes + 1, '\\0');
    std::snprintf(s.data(), s.size(), format, std::forward<Ts>(xs)...);
    (*stream) << string(s.data(), nbytes);
    return nbytes;'''))
edit('io-fread-zero', 'cstdio.hpp', ('''  assert(size==sizeof(char));
''', '''  assert(size==sizeof(char));
  if (count == 0) return 0;
'''))
edit('io-fread-loop', 'cstdio.hpp', ('''  stream->read(buffer, size*count);
  return stream->gcount() / size;''', '''  stream->read(buffer, static_cast<streamsize>(count));
  return static_cast<std::size_t>(stream->gcount());'''))
# ---- runtime_ostream
edit('ro-switch', 'runtime_ostream.hpp', ('''    if      (&cest::cout == &os) std::cout << x;
    else if (&cest::cerr == &os) std::cerr << x;
    else if (&cest::clog == &os) std::clog << x;''', '''    if (&cest::cout == &os) { std::cout << x; return; }
    if (&cest::clog == &os) { std::clog << x; return; }
    if (&cest::cerr == &os) { std::cerr << x; return; }'''))
edit('ro-endl', 'runtime_ostream.hpp', ('''    if      (&cest::cout == &os) std::cout << fp;
    else if (&cest::cerr == &os) std::cerr << fp;
    else if (&cest::clog == &os) std::clog << fp;''', '''    if      (&cest::cout == &os) fp(std::cout);
    else if (&cest::cerr == &os) fp(std::cerr);
    else if (&cest::clog == &os) fp(std::clog);'''))
# ---- cmath
edit('cm-floor', 'cmath.hpp', ('''    return ((double)(int)v != v && v < 0) ?  (int)v - 1 : (int)v;''', '''    const int i = static_cast<int>(v);
    return i > v ? i - 1 : i;'''))
edit('cm-ceil', 'cmath.hpp', ('''    return ((double)(int)v != v && v > 0) ?  (int)v + 1 : (int)v;''', '''    const int i = static_cast<int>(v);
    return i < v ? i + 1 : i;'''))
edit('cm-pow-squaring', 'cmath.hpp', ('''    return exponent <  0 ? 1.0 / pow(base,-exponent) :
           exponent == 0 ? 1.                        :
           exponent == 1 ? base                      :
           base * pow(base,exponent-1);''', '''    if (exponent < 0) return 1.0 / pow(base,-exponent);
    double r = 1.;
    for (; exponent; exponent >>= 1, base *= base)
      if (exponent & 1) r *= base;
    return r;'''))
edit('cm-pow-loop', 'cmath.hpp', ('''    return exponent <  0 ? 1.0 / pow(base,-exponent) :
           exponent == 0 ? 1.                        :
           exponent == 1 ? base                      :
           base * pow(base,exponent-1);''', '''    if (exponent < 0) return 1.0 / pow(base,-exponent);
    double r = 1.;
    for (int i = 0; i < exponent; ++i) r *= base;
    return r;'''))
edit('cm-sin-once', 'cmath.hpp', ('''      return x < tol ? x : 3*(sin_helper(x/3.0)) - 4*cube(sin_helper(x/3.0));''', '''      if (x < tol) return x;
      const double s = sin_helper(x/3.0);
      return 3*s - 4*cube(s);'''))
edit('cm-sqrt-loop', 'cmath.hpp', ('''      return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);''', '''      double r = g;
      while (!(abs(r-x/r) < (tol*r))) r = (r+x/r)/2.0;
      return r;'''))
edit('cm-cosh', 'cmath.hpp', ('''    return sqrt(1.0 + square(sinh(x)));''', '''    const double s = sinh(x);
    return sqrt(square(s) + 1.0);'''))
edit('cm-mantissa-loop', 'cmath.hpp', ('''      return x >= 10.0 ? mantissa(x *  0.1) :
             x <  1.0  ? mantissa(x * 10.0) :
             x;''', '''      double m = x;
      while (m >= 10.0) m *= 0.1;
      while (m < 1.0) m *= 10.0;
      return m;'''))
edit('cm-atan-horner', 'cmath.hpp', ('''      return x + atan_poly_helper(pow(x,5)/5.-pow(x,3)/3., pow(x,7), 7., x*x);''', '''      const double x2 = x*x, x3 = x2*x, x5 = x3*x2;
      return x + atan_poly_helper(x5/5.-x3/3., x5*x2, 7., x2);'''))
edit('cm-exp-horner', 'cmath.hpp', ('''      return 1.0 + r + pow(r,2)/2.0   + pow(r,3)/6.0   +
                       pow(r,4)/24.0  + pow(r,5)/120.0 +
                       pow(r,6)/720.0 + pow(r,7)/5040.0;''', '''      return 1.0 + r*(1.0 + r/2.0*(1.0 + r/3.0*(1.0 + r/4.0*(1.0 + r/5.0*(
             1.0 + r/6.0*(1.0 + r/7.0))))));'''))
# ---- basic_ios
edit('bi-clear', 'basic_ios.hpp', ('''    if (this->rdbuf())
      _M_streambuf_state = __state;   
    else
      _M_streambuf_state = __state | badbit;''', '''    _M_streambuf_state = _M_streambuf ? __state : (__state | badbit);'''))
edit('bi-not', 'basic_ios.hpp', ('''  operator!() const
  { return this->fail(); }''', '''  operator!() const
  { return !static_cast<bool>(*this); }'''))
# ---- ostream
edit('os-flush-early', 'ostream.hpp', ('''    impl::runtime_ostream(*this, __n);
    return *this;
  }''', '''    basic_ostream& self = *this;
    impl::runtime_ostream(self, __n);
    return self;
  }'''))
# ---- complex
edit('cx-mul-terms', 'complex.hpp', ('''      const _Tp __r = _M_real * __z.real() - _M_imag * __z.imag();
      _M_imag = _M_real * __z.imag() + _M_imag * __z.real();
      _M_real = __r;''', '''      const _Tp __a = _M_real, __b = _M_imag;
      const _Tp __c = __z.real(), __d = __z.imag();
      _M_real = __a * __c - __b * __d;
      _M_imag = __b * __c + __a * __d;'''))
edit('cx-div-order', 'complex.hpp', ('''      const _Tp __r =  _M_real * __z.real() + _M_imag * __z.imag();
      const _Tp __n = cest::norm(__z);
      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / __n;
      _M_real = __r / __n;''', '''      const _Tp __c = __z.real(), __d = __z.imag();
      const _Tp __n = __c * __c + __d * __d;
      const _Tp __r = (_M_real * __c + _M_imag * __d) / __n;
      const _Tp __i = (_M_imag * __c - _M_real * __d) / __n;
      _M_real = __r;
      _M_imag = __i;'''))
edit('cx-add-return', 'complex.hpp', ('''    operator+(const complex<_Tp>& __x, const complex<_Tp>& __y)
    {
      complex<_Tp> __r = __x;
      __r += __y;
      return __r;
    }''', '''    operator+(const complex<_Tp>& __x, const complex<_Tp>& __y)
    {
      return complex<_Tp>(__x.real() + __y.real(), __x.imag() + __y.imag());
    }'''))
edit('cx-assign-scalar', 'complex.hpp', ('''     _M_real = __t;
     _M_imag = _Tp();
     return *this;''', '''     return *this = complex(__t);'''))
