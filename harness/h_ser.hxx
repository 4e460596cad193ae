// C16: round trips
static bufptr rnd_buf(size_t n)
{
    bufptr b = buffer::alloc(n);
    for (size_t i = 0; i < n; ++i)
        b->data()[i] = (byte)h->rnd(256);
    return b;
}
static std::string rnd_ep()
{
    size_t n = 1 + (h->chance(90) ? h->rnd(30) : h->rnd(70000));
    std::string s;
    for (size_t i = 0; i < n; ++i)
        s.push_back((char)(1 + h->rnd(255)));
    return s;
}
static ptr<cluster_config> rnd_conf()
{
    ptr<cluster_config> c(cs_new<cluster_config>(rnd_val(), rnd_val()));
    size_t n = h->chance(80) ? h->rnd(8) : h->rnd(400);
    for (size_t i = 0; i < n; ++i)
        c->get_servers().push_back(cs_new<srv_config>((int32)rnd_val(), n > 20 ? std::string("tcp://x") : rnd_ep()));
    return c;
}
static void same_conf(cluster_config& a, cluster_config& b, const char* what)
{
    if (a.get_log_idx() != b.get_log_idx() || a.get_prev_log_idx() != b.get_prev_log_idx())
        h->fail("%s: config indexes %lu/%lu became %lu/%lu", what, (ul)a.get_log_idx(), (ul)a.get_prev_log_idx(), (ul)b.get_log_idx(), (ul)b.get_prev_log_idx());
    if (a.get_servers().size() != b.get_servers().size())
        h->fail("%s: %lu servers became %lu", what, (ul)a.get_servers().size(), (ul)b.get_servers().size());
    auto i = a.get_servers().begin();
    auto j = b.get_servers().begin();
    for (; i != a.get_servers().end(); ++i, ++j)
        if ((*i)->get_id() != (*j)->get_id() || (*i)->get_endpoint() != (*j)->get_endpoint())
            h->fail("%s: server %d became %d or its endpoint changed", what, (*i)->get_id(), (*j)->get_id());
}
static void consumed(buffer& b, const char* what)
{
    if (b.pos() != b.size())
        h->fail("%s: %lu bytes serialised, %lu consumed", what, (ul)b.size(), (ul)b.pos());
}
static void c16_(int k)
{
    switch (k)
    {
    case 0:
    {
        size_t n = rnd_size();
        bufptr d = rnd_buf(n);
        bufptr ref = buffer::copy(*d);
        if (h->chance(50))
            d->pos(h->rnd(n + 1));
        ulong term = rnd_val();
        log_val_type t = (log_val_type)(1 + h->rnd(5));
        log_entry e(term, std::move(d), t);
        bufptr s = e.serialize();
        if (s->pos() != 0)
            h->fail("log_entry: serialised buffer is not at position 0");
        if (log_entry::term_in_buffer(*s) != term || s->pos() != 0)
            h->fail("log_entry: term_in_buffer");
        ptr<log_entry> r = log_entry::deserialize(*s);
        if (r->get_term() != term || r->get_val_type() != t)
            h->fail("log_entry: term %lu type %d became %lu %d", (ul)term, (int)t, (ul)r->get_term(), (int)r->get_val_type());
        if (r->get_buf().size() != n || r->get_buf().pos() != 0 || memcmp(r->get_buf().data(), ref->data(), n))
            h->fail("log_entry: payload of %lu bytes changed", (ul)n);
        break;
    }
    case 1:
    {
        srv_config c((int32)rnd_val(), rnd_ep());
        bufptr s = c.serialize();
        ptr<srv_config> r = srv_config::deserialize(*s);
        consumed(*s, "srv_config");
        if (r->get_id() != c.get_id() || r->get_endpoint() != c.get_endpoint())
            h->fail("srv_config: id %d endpoint length %lu became %d, %lu", c.get_id(), (ul)c.get_endpoint().size(), r->get_id(), (ul)r->get_endpoint().size());
        break;
    }
    case 2:
    {
        ptr<cluster_config> c = rnd_conf();
        bufptr s = c->serialize();
        ptr<cluster_config> r = cluster_config::deserialize(*s);
        consumed(*s, "cluster_config");
        same_conf(*c, *r, "cluster_config");
        break;
    }
    default:
    {
        ptr<cluster_config> c = rnd_conf();
        ptr<snapshot> sn(cs_new<snapshot>(rnd_val(), rnd_val(), c, rnd_val()));
        if (k == 3)
        {
            bufptr s = sn->serialize();
            ptr<snapshot> r = snapshot::deserialize(*s);
            consumed(*s, "snapshot");
            same_conf(*c, *r->get_last_config(), "snapshot");
            if (r->get_last_log_idx() != sn->get_last_log_idx() || r->get_last_log_term() != sn->get_last_log_term() || r->size() != sn->size())
                h->fail("snapshot: %lu/%lu/%lu became %lu/%lu/%lu", (ul)sn->get_last_log_idx(), (ul)sn->get_last_log_term(), (ul)sn->size(), (ul)r->get_last_log_idx(), (ul)r->get_last_log_term(), (ul)r->size());
        }
        else
        {
            size_t n = rnd_size();
            bufptr d = rnd_buf(n);
            if (h->chance(30))
                d->pos(h->rnd(n + 1));
            bufptr ref = buffer::copy(*d);
            ulong off = rnd_val();
            bool done = h->chance(50);
            snapshot_sync_req q(sn, off, std::move(d), done);
            bufptr s = q.serialize();
            ptr<snapshot_sync_req> r = snapshot_sync_req::deserialize(*s);
            same_conf(*c, *r->get_snapshot().get_last_config(), "snapshot_sync_req");
            if (r->get_snapshot().get_last_log_idx() != sn->get_last_log_idx() || r->get_snapshot().get_last_log_term() != sn->get_last_log_term() || r->get_snapshot().size() != sn->size())
                h->fail("snapshot_sync_req: snapshot fields changed");
            if (r->get_offset() != off || r->is_done() != done)
                h->fail("snapshot_sync_req: offset %lu done %d became %lu %d", (ul)off, done, (ul)r->get_offset(), r->is_done());
            if (r->get_data().size() != ref->size() || r->get_data().pos() != 0 || memcmp(r->get_data().data(), ref->data(), ref->size()))
                h->fail("snapshot_sync_req: data of %lu bytes changed (%lu bytes)", (ul)ref->size(), (ul)r->get_data().size());
        }
    }
    }
}
static void c16()
{
    int k = h->rnd(5);
    log_ = "round trip of kind " + std::to_string(k);
    try
    {
        c16_(k);
    }
    catch (std::exception& e)
    {
        h->fail("exception in a round trip of kind %d: %s", k, e.what());
    }
}
