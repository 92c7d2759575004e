"""which harness entries decide which property"""
def P(h, *es, **kw): return [dict(h=h, e=e, **kw) for e in es]
def Bd(h, e, bound, fuzz=8, **kw): return [dict(h=h, e=e, kind='bounded', bound=bound, fuzz=fuzz, **kw)]
_pairs=[(a,b) for a in ('g8','g16','bgr24','bgr48') for b in ('g8','g16','f32','bgr24','bgr48')]
_pt=('g8','g16','f32','bgr24','bgr48','bgra32')
_dim = dict(feas_ms=8, ob_ms=60000, budget=420)
_mcc=[(a,m+t) for a in ('g8','g16','bgr24','bgr48') for m in ('plain','bw','lut') for t in 'nt']+[('bgra32','plainn'),('bgra32','plaint')]
_sb = dict(unroll=3, feas_ms=30, ob_ms=60000, budget=300)
_wr = dict(ob_ms=60000, budget=400)
_wsball=['H_%s_%d'%(m,n) for m in ('wsb','wsbm','wsbin','wsbinm') for n in range(10)]
def _wsb(*now): return P('wr',*now,opts=_wr,weight=6)+P('wr',*[x for x in _wsball if x not in now],thorough_only=True,opts=_wr)
_rw=['H_rw_add','H_rw_replace','H_rw_remove','H_rw_addatt','H_rw_replaceatt','H_rw_removeatt','H_rw_meta','H_rw_close_00','H_rw_close_01','H_rw_close_10','H_rw_close_11','H_rw_write']
_wt=['H_w_add','H_w_addatt','H_w_meta']+['H_w_close_%d%d%d'%(a,b,c) for a in (0,1) for b in (0,1) for c in (0,1)]+['H_res_meta','H_res_att','H_res_sb','H_w_write']
_ad=['H_ad_mem','H_ad_str','H_ad_lin']
_adh=['H_adh_mem','H_adh_str','H_adh_lin']
PLAN = {
 'P01': {'entries':
    P('parse', 'H_subblock', opts=_sb, weight=5) + P('parse', 'H_addentry_m', opts=_dim, weight=9) + P('parse', 'H_fileheader', 'H_segheader', 'H_attachment', 'H_metadata', 'H_subblkdir', 'H_walk', 'H_attdir_any', 'H_letters')},
 'P02': {'entries':
    P('parse', 'H_addentry_xy', 'H_addentry_m', 'H_addentry_c1', 'H_addentry_c2', 'H_addentry_c3', opts=_dim, weight=9)
    + P('parse', 'H_subblock_xy', 'H_subblock_m', 'H_subblock_c1', 'H_subblock_c2', 'H_subblock_c3', opts=_dim, weight=8)
    + P('parse', 'H_subblock', opts=_sb, weight=5) + P('parse', 'H_fileheader', 'H_segheader', 'H_attachment', 'H_metadata', 'H_subblkdir', 'H_walk', 'H_attdir', 'H_attdir_skip', 'H_letters')},
 'P03': {'entries': Bd('doc','B_roundtrip','random writing histories: up to 100 subblocks and 4 attachments, payloads up to 20 kB', fuzz=40)
    + P('wr',*['H_filldv_%d'%i for i in range(10)]) + P('wr','H_generic','H_watt','H_wmeta','H_checkmeta') + P('wrt',*_wt,fuzz=1) + P('wrt','H_checkcoord',*_ad,fuzz=1) + P('wr','H_wsbdir','H_wattdir',opts=_wr,weight=4) + _wsb('H_wsb_2','H_wsbm_9')},
 'P04': {'entries': Bd('doc','B_layout','random writing histories as in B_roundtrip; every segment of the result is walked', fuzz=30) + Bd('doc','B_edit_layout','up to 4 editing sessions with up to 8 operations each', fuzz=30)
    + P('wr','H_align','H_zeroes','H_watt','H_wmeta') + P('rw',*_rw,fuzz=1) + P('wrt',*_wt,fuzz=1) + P('wr','H_wsbdir','H_wattdir',opts=_wr,weight=4) + _wsb('H_wsb_0','H_wsbm_9')},
 'P05': {'entries': Bd('doc','B_edit','up to 4 editing sessions with up to 8 operations each over random documents', fuzz=60)
    + P('wr','H_wattin','H_wmeta') + P('rw',*_rw,fuzz=1) + P('wrt',*_adh,fuzz=1) + P('wr','H_wsbdir','H_wattdir',opts=_wr,weight=4) + _wsb('H_wsbin_1','H_wsbinm_9')},
 'P06': {'entries': Bd('qry','B_stats','random documents with up to 100 subblocks', fuzz=30) + Bd('qry','B_stats_edit','random editing histories with up to 8 operations', fuzz=30) + P('qstep','H_bbox',*['H_update_%d'%i for i in range(1,10)],*['H_two_%d'%i for i in range(6)])},
 'P07': {'entries': Bd('qry','B_subset','random documents with up to 100 subblocks, 4 random filters each', fuzz=40) + P('qstep','H_filter','H_filter_pc','H_coordmatch','H_sbinfo','H_enum')},
 'P16': {'entries': Bd('qry','B_frames','random documents, points within +-100000', fuzz=30) + P('qstep','H_transform') + P('rw','H_rw_transform',fuzz=1)},
 'P08': {'entries':
    P('dims', 'H_coord_ops', 'H_coord_enum', 'H_coord_enum_stop', 'H_bounds_ops', 'H_bounds_enum', 'H_compare')
    + Bd('dims', 'B_parse', 'random coordinates and random near-miss strings') + Bd('dims', 'B_tostring', 'random coordinates')
    + Bd('dims', 'B_boundsstring', 'random bounds') + Bd('dims', 'B_enumall', 'random bounds, total size <= a few thousand')},
 'P09': {'entries':
    P('bmp','H_border_bgr48','H_border_bgr24','H_border_f32','H_border_g16','H_border_g8')
    + P('bmp',*['H_copy_%s_%s'%x for x in _pairs]) + P('bmp','H_copy_f32_f32','H_copy_refused')
    + P('bmp','H_place_g8_bgr24','H_place_bgr24_g8','H_place_g16_bgr48','H_place_bgr48_g16','H_place_f32_f32','H_swap_g16','H_swap_bgr48','H_rgb_bgr')},
 'P10': {'entries':
    P('bmp',*['H_nn_%s_%s'%x for x in _pairs]) + P('bmp','H_nn_bgra32_bgra32','H_nn_f32_f32','H_nn_refused',
      'H_fill_g8','H_fill_g16','H_fill_f32','H_fill_bgr24','H_fill_bgr48','H_fill_bgra32','H_fill_refused')},
 'P11': {'entries': P('lohi', 'H_unpack', 'H_pack', 'H_args') + Bd('lohi', 'B_lohi_inverse', 'width <= 1000, height <= 100')},
 'P12': {'entries': Bd('zsb','B_zstd','bitmaps up to a few hundred pixels, all parameters, mutated payloads',fuzz=20) + Bd('zsb','B_zstd_raw','hand-made payloads with other sizes than the bitmap needs',fuzz=20) + Bd('zsb','B_uncompressed','payload sizes around the size of the bitmap',fuzz=8)
    + P('zc',*['H_c%d_%s'%(c,t) for c in (0,1) for t in _pt]) + P('zc','H_c1lohi_g16','H_c1lohi_bgr48')
    + P('zs',*['H_z%d%s_%s'%(c,m,t) for c in (0,1) for m in ('req','mis') for t in _pt]) + P('zs',*['H_lhreq_%s'%t for t in ('g16','bgr48')]) + P('zs',*['H_lhmis_%s_%s'%(t,m) for t in ('g16','bgr48') for m in ('eq','lt','gt')])
    + P('un',*['H_%s_%s'%(m,t) for m in ('un','unref','unpad') for t in _pt],fuzz=1)},
 'P18': {'entries': P('codes', 'H_pixeltype_code', 'H_pixeltype_enum', 'H_compression_code', 'H_pyramid_code', 'H_dimension_letter')},
 'P17': {'entries': P('bito','H_pixel','H_setall','H_setbyte','H_orbyte','H_andbyte','H_mcopy_refused')
    + P('bito','H_fillrect',opts=dict(budget=240,ob_ms=40000),weight=3)
    + P('bito',*['H_fillrect_b%d'%i for i in range(8)],thorough_only=True,opts=dict(ob_ms=300000,budget=1500))
    + P('bito',*['H_mcopy_%s_%s'%x for x in _pairs]) + P('bito','H_mcopy_f32_f32','H_mplace_g8_bgr24','H_mplace_bgr24_g8','H_mplace_g16_bgr48','H_mplace_bgr48_g16','H_mplace_f32_f32')
    + Bd('bitob','B_bitonal','up to 12 operations on bitmaps up to 70x12',fuzz=10) + Bd('bitob','B_decimate','bitmaps up to 140x20',fuzz=12) + Bd('bitob','B_copyat','bitmaps up to 20x10',fuzz=10) + Bd('bitob','B_nnmask','bitmaps up to 20x10, rectangles on a grid of 1/4',fuzz=12)
    + P('bito','H_nnmask_g8_g8','H_nnmask_bgr24_g8','H_nnmask_f32_f32','H_nnmask_g8_bgr24','H_nnmask_g16_g16','H_nnmask_g16_g8','H_nnmask_bgr24_bgr24','H_nnmask_bgr48_bgr48','H_nnmask_bgr48_bgr24',thorough_only=True,opts=dict(ob_ms=120000,budget=1200))},
 'P13': {'entries': P('vis','H_visible','H_visible_none',fuzz=1) + P('rect','H_add',opts=dict(ob_ms=120000,budget=480,jobs=4),weight=9) + P('rect','H_intersect','H_invalid','H_contained','H_split_0','H_split_3','H_area','H_covered',*['H_split_%d_%d'%(x,y) for x in (1,2) for y in range(4)]) + Bd('rectb','B_coverage','up to 12 random rectangles, coordinates mostly within +-60, some at the limits of int', fuzz=20) + Bd('rectb','B_visibility','up to 14 random tiles', fuzz=20)},
 'P14': {'entries': Bd('misc','B_cache','random histories of up to 60 operations', fuzz=25) + P('cache','H_cache_size',fuzz=1) + P('cache','H_cache_get','H_cache_add_replace','H_cache_add_new','H_cache_add_other_replace_0','H_cache_add_other_replace_1','H_cache_add_other_new','H_cache_prune_none','H_cache_prune_key','H_cache_prune_other','H_cache_stat',fuzz=0)},
 'P15': {'entries': Bd('misc','B_indexset','random expressions and near-miss texts', fuzz=25) + P('iset','H_iset_in','H_iset_out','H_iset_interval','H_iset_add','H_iset_value','H_iset_inf',fuzz=2)},
 'P20': {'entries': Bd('comp','B_compose','random documents with up to 12 tiles, regions around them', fuzz=40) + Bd('comp','B_compose_mask','as B_compose, with valid-pixel masks', fuzz=40)
    + P('tacc','H_tile','H_tile_mask','H_tiles','H_tiles_default','H_tiles_mask','H_tiles_mask_default','H_select','H_select_pyr','H_data','H_plane','H_list','H_list_vis','H_list_pyr','H_pixelsize','H_order','H_order_pyr','H_request','H_get_dest','H_get_new','H_get_pyr_dest','H_get_pyr_new',fuzz=1) + P('vis','H_visible',fuzz=1)},
 'P19': {'entries': P('capi','H_coord_out','H_coord_in','H_bounds_out','H_subblockinfo_out','H_addsubblock_in','H_sbraw','H_attraw','H_copyto_g8','H_copyto_g16','H_copyto_f32','H_copyto_bgr24','H_copyto_bgr48','H_copyto_bgra32','H_copyto_refused','H_handle_kind','H_truncate')
    + Bd('capib','B_capi_read','random documents with up to 10 subblocks',fuzz=25) + Bd('capib','B_capi_write','up to 8 subblocks and 3 attachments',fuzz=25) + Bd('capib','B_capi_docinfo','random metadata',fuzz=12) + Bd('capib','B_capi_accessor','up to 6 tiles',fuzz=12)},
 'P21': {'entries': P('conc','H_stream_file','H_stream_pread','H_stream_rw','H_reader_sub','H_reader_att','H_reader_meta','H_reader_close','H_stat_query',fuzz=0)
    + P('cache','H_cache_get','H_cache_add_replace','H_cache_add_new','H_cache_add_other_replace_0','H_cache_add_other_replace_1','H_cache_add_other_new','H_cache_prune_none','H_cache_prune_key','H_cache_prune_other','H_cache_stat',fuzz=0)
    + Bd('thr','B_thr_reader','4 threads with 12 operations each on random documents (ThreadSanitizer)',fuzz=15) + Bd('thr','B_thr_close','3 reading threads and one that closes the reader (ThreadSanitizer)',fuzz=12) + Bd('thr','B_thr_cache','4 threads with 60 operations each (ThreadSanitizer)',fuzz=10) + Bd('thr','B_thr_stream','4 threads with 40 reads each, every stream type for local files and memory (ThreadSanitizer)',fuzz=10)},
 'P24': {'entries': P('chunk','H_chunks','H_mask','H_maskbmp',fuzz=8)},
 'P23': {'entries': P('mcc',*['H_c24_%s_%s'%x for x in _mcc]) + P('mcc','H_c32_g8_plainn','H_c32_bgr48_lutt','H_c32_bgra32_plaint')
    + Bd('mccb','B_mcc','up to 6 channels, bitmaps up to 9x6',fuzz=25)
    + P('mcc',*['H_c32_%s_%s'%x for x in _mcc if x not in (('g8','plainn'),('bgr48','lutt'),('bgra32','plaint'))],thorough_only=True,opts=dict(ob_ms=120000,budget=900))
    + P('mcc',*['H_%s_%s_%s'%((v,)+x) for v in ('m24','m24w','m32','m32w') for x in _mcc],thorough_only=True,opts=dict(ob_ms=120000,budget=900))},
}
