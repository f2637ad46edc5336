/* a file in memory whose n-th write fails (n = mf_fail_), for checks of writers */
static unsigned char mf_[4096]; static int mf_n_, mf_pos_, mf_writes_, mf_fail_ = -1, mf_bad_;
static ZPL_FILE_READ_AT_PROC(mf_read_) { (void)fd; (void)buffer; (void)size; (void)offset; (void)bytes_read; (void)stop_at_newline; mf_bad_++; return false; }
static ZPL_FILE_WRITE_AT_PROC(mf_write_) { (void)fd; if (mf_writes_++ == mf_fail_) return false; if (offset < 0 || size < 0 || offset + size > (zpl_i64)sizeof mf_) { mf_bad_++; return false; } for (zpl_isize i = 0; i < size; i++) mf_[offset + i] = ((unsigned char const *)buffer)[i]; if (offset + size > mf_n_) mf_n_ = (int)(offset + size); if (bytes_written) *bytes_written = size; return true; }
static ZPL_FILE_SEEK_PROC(mf_seek_) { (void)fd; mf_pos_ = (int)(offset + (whence == ZPL_SEEK_WHENCE_CURRENT ? mf_pos_ : whence == ZPL_SEEK_WHENCE_END ? mf_n_ : 0)); if (new_offset) *new_offset = mf_pos_; return true; }
static ZPL_FILE_CLOSE_PROC(mf_close_) { (void)fd; }
static void mf_open(zpl_file *f, int fail) { memset(f, 0, sizeof *f); f->ops.read_at = mf_read_; f->ops.write_at = mf_write_; f->ops.seek = mf_seek_; f->ops.close = mf_close_; mf_n_ = mf_pos_ = mf_writes_ = mf_bad_ = 0; mf_fail_ = fail; }
