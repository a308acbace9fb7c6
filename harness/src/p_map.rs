//! Map information, height map, document header and coordinates of cached maps.
use crate::sym;
use nom_mpq::harness_archive;
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::coords::*;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;

fn le(o: &mut Vec<u8>, x: i32) { o.extend_from_slice(&x.to_le_bytes()) }
/// Text without zeros.
fn text(n: usize) -> Vec<u8> { let v = sym::vec(n); for x in &v { sym::assume((*x > 0) & (*x < 0x80)) } v }
fn unknown(o: &mut Vec<u8>, n: usize) { o.extend_from_slice(&sym::vec(n)) }
struct Map { b: Vec<u8>, version: i32, texts: Vec<Vec<u8>>, v: [i32; 6] }
/// A map information file; width, height, left, bottom, right, top are any.
fn map_info(pad: usize, lens: [usize; 4], v: [i32; 6]) -> Map {
    let mut b = b"IpaM".to_vec();
    let version = sym::i32();
    le(&mut b, version);
    if version > 24 { unknown(&mut b, 8) }
    le(&mut b, v[0]);
    le(&mut b, v[1]);
    unknown(&mut b, 8);
    b.extend(vec![0; pad]);
    let texts: Vec<Vec<u8>> = lens.iter().map(|n| text(*n)).collect();
    for (k, t) in texts.iter().enumerate() {
        b.extend_from_slice(t);
        b.push(0);
        if k == 1 { unknown(&mut b, 5) }
    }
    for x in &v[2..] { le(&mut b, *x) }
    Map { b, version, texts, v }
}
fn any6() -> [i32; 6] { core::array::from_fn(|_| sym::i32()) }
fn fits(v: &[i32; 6]) -> bool {
    let [w, h, l, b, r, t] = *v;
    (w <= 256) & (h <= 256) & (0 <= l) & (l < r) & (r <= w) & (0 <= b) & (b < t) & (t <= h)
}
fn read_map(b: &[u8]) -> Option<MapInfo> {
    harness_archive(vec![], vec![("MapInfo", b.to_vec())]);
    MapInfo::from_mpq(&nom_mpq::MPQ::harness(), &[]).ok()
}
fn map_is(m: &Map, got: &MapInfo) {
    sym::check((got.file_version == m.version) & (got.cell_width == m.v[0]) & (got.cell_height == m.v[1]), "version and size");
    sym::check((got.cell_left == m.v[2]) & (got.cell_bottom == m.v[3]) & (got.cell_right == m.v[4]) & (got.cell_top == m.v[5]), "the playable area");
    let t = [&got.first_string, &got.second_string, &got.third_string, &got.fourth_string];
    for (w, g) in m.texts.iter().zip(t) { sym::check(g.as_bytes() == &w[..], "texts") }
    let [w, h, l, b, r, t] = m.v;
    let (c, d) = (got.cell_dim_map(), got.terrain_dim_map());
    sym::check((c.x == w) & (c.y == h) & (d.x == w + 1) & (d.y == h + 1), "size in cells and terrain points");
    let (c, d) = (got.cell_dim_playable(), got.terrain_dim_playable());
    sym::check((c.x == r - l) & (c.y == t - b) & (d.x == r - l + 1) & (d.y == t - b + 1), "size of the playable area");
    let (c, d, e) = (got.cell_left_bottom(), got.cell_right_top(), got.terrain_left_bottom());
    sym::check((c.x == l) & (c.y == b) & (d.x == r) & (d.y == t) & (e.x == l) & (e.y == b), "corners of the playable area");
}
entry! { h_map_info {
    sym::init();
    let lens = [[1, 0, 4, 5], [1, 0, 0, 0], [2, 1, 1, 0], [1, 2, 0, 1]][sym::choice(4)];
    let m = map_info(sym::choice(3), lens, any6());
    let want = fits(&m.v);
    let got = read_map(&m.b);
    sym::check(got.is_some() == want, "accepted if and only if the playable area is inside the map and the map not too large");
    if let Some(got) = got { map_is(&m, &got); sym::cover("accepted") } else { sym::cover("rejected") }
}}
entry! { h_map_info_short {
    sym::init();
    let m = map_info(2, [1, 0, 1, 1], any6());
    let n = sym::choice(m.b.len() as u8);
    sym::check(read_map(&m.b[..n]).is_none(), "a truncated file is rejected");
    sym::cover("truncated");
}}
entry! { h_map_info_magic {
    sym::init();
    let mut m = map_info(1, [1, 0, 0, 0], [9, 9, 1, 1, 8, 8]);
    let k = sym::choice(4);
    let x = sym::u8();
    sym::assume(x != m.b[k]);
    m.b[k] = x;
    sym::check(read_map(&m.b).is_none(), "another kind of file is rejected");
    sym::cover("rejected");
}}
fn read_heights(b: &[u8], m: &MapInfo) -> Option<T3HeightMap> {
    harness_archive(vec![], vec![("t3HeightMap", b.to_vec())]);
    T3HeightMap::from_mpq(&nom_mpq::MPQ::harness(), &[], m).ok()
}
entry! { h_height_map {
    sym::init();
    // terrain points
    let (w, h) = (2 + sym::choice(2) as i32, 2 + sym::choice(2) as i32);
    let m = MapInfo { cell_width: w - 1, cell_height: h - 1, ..Default::default() };
    let mut b = b"HMAP\x65\0\0\0".to_vec();
    let (x, y) = (sym::i32(), sym::i32());
    le(&mut b, x);
    le(&mut b, y);
    unknown(&mut b, 16);
    let cells: Vec<[u8; 6]> = (0..w * h).map(|_| sym::bytes::<6>()).collect();
    for c in &cells { b.extend_from_slice(c) }
    let more = sym::choice(2);
    unknown(&mut b, more);
    let got = read_heights(&b, &m);
    let mut ok = (x == w) & (y == h);
    for c in &cells { ok &= c[4] <= 4 }
    sym::check(got.is_some() == ok, "accepted if and only if the size is the map's and every height in range");
    if let Some(g) = got {
        sym::check((g.width == w) & (g.height == h) & (g.data.len() == cells.len()), "one height for each terrain point");
        for (c, d) in cells.iter().zip(&g.data) { sym::check(c[4] == *d, "the point's height") }
        sym::cover("accepted");
    } else { sym::cover("rejected") }
}}
entry! { h_height_map_short {
    sym::init();
    let m = MapInfo { cell_width: 2, cell_height: 1, ..Default::default() };
    let mut b = b"HMAP\x65\0\0\0\x03\0\0\0\x02\0\0\0".to_vec();
    unknown(&mut b, 16 + 36);
    let n = sym::choice(b.len() as u8);
    if sym::choice(2) == 0 { b.truncate(n) } else {
        let x = sym::u8();
        sym::assume((n < 16) & (x != b[n]));
        b[n] = x;
    }
    sym::check(read_heights(&b, &m).is_none(), "a truncated or different file is rejected");
    sym::cover("rejected");
}}
fn document(fields: &[(&[u8], Vec<u8>)], n: u16) -> (Vec<u8>, [i32; 4]) {
    let mut b = b"H2CS".to_vec();
    unknown(&mut b, 4);
    b.extend_from_slice(b"2S\0\0");
    unknown(&mut b, 4);
    let v = [sym::i32(), sym::i32(), sym::i32(), sym::i32()];
    le(&mut b, v[0]);
    le(&mut b, v[1]);
    unknown(&mut b, 4);
    le(&mut b, v[2]);
    le(&mut b, v[3]);
    unknown(&mut b, 12);
    b.extend_from_slice(b"bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod\0");
    b.extend_from_slice(&n.to_le_bytes());
    b.extend_from_slice(&[0, 0]);
    for (k, v) in fields {
        b.extend_from_slice(&(k.len() as u16).to_le_bytes());
        b.extend_from_slice(k);
        b.extend_from_slice(b"SUne");
        b.extend_from_slice(&(v.len() as u16).to_le_bytes());
        b.extend_from_slice(v);
    }
    (b, v)
}
fn read_document(b: &[u8]) -> Option<DocumentHeader> {
    harness_archive(vec![], vec![("DocumentHeader", b.to_vec())]);
    DocumentHeader::from_mpq(&nom_mpq::MPQ::harness(), &[]).ok()
}
const KEYS: [&[u8]; 6] = [b"DocInfo/Name", b"DocInfo/DescLong", b"DocInfo/DescShort", b"MapInfo/Player01/Name", b"DocInfo/Nam", b""];
fn fields(most: u8, keys: u8) -> Vec<(usize, Vec<u8>)> {
    (0..sym::choice(most + 1)).map(|_| (sym::choice(keys), text([0, 1, 3][sym::choice(3)]))).collect()
}
entry! { h_document {
    sym::init();
    let f = fields(2, 6);
    let list: Vec<(&[u8], Vec<u8>)> = f.iter().map(|(k, v)| (KEYS[*k], v.clone())).collect();
    let (mut b, v) = document(&list, f.len() as u16);
    let n = sym::choice(3);
    unknown(&mut b, n);
    let Ok((rest, g)) = DocumentHeader::parse(&b) else { sym::check(false, "a well formed document header is accepted"); return };
    let mut want = [vec![], vec![], vec![]];
    for (k, v) in f { if k < 3 { want[k] = v } }
    sym::check(g.name.as_bytes() == want[0] && g.description_long.as_bytes() == want[1] && g.description_short.as_bytes() == want[2], "the fields by name, the last of each");
    sym::check((g.maybe_dimension_x1 == v[0]) & (g.maybe_dimension_y1 == v[1]) & (g.some_epoch_1 == v[2]) & (g.some_epoch_2 == v[3]), "the numbers");
    sym::check(g.mod_info == "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod", "the mod");
    sym::check(rest == &b[b.len() - n..], "what follows the header is left");
    sym::cover(["no field", "one field", "two fields"][list.len()]);
}}
entry! { h_document_short {
    sym::init();
    let (mut b, _) = document(&[(b"DocInfo/Name", text(2))], 1);
    let n = sym::choice(b.len() as u8);
    if sym::choice(2) == 0 { b.truncate(n) } else {
        let x = sym::u8();
        // everything but the unknown and numeric parts, and the name and value
        sym::assume((x != b[n]) & ((n < 4) | ((n >= 48) & (n < 94)) | ((n >= 96) & (n < 98)) | ((n >= 112) & (n < 116))));
        b[n] = x;
    }
    sym::check(read_document(&b).is_none(), "a truncated or different file is rejected");
    sym::cover("rejected");
}}
// Any number of fields, any sizes of name and value.
entry! { h_document_any {
    sym::init();
    let (mut b, _) = document(&[(b"DocInfo/Name", b"ab".to_vec())], sym::u16());
    let n = b.len();
    b[n - 4..n - 2].copy_from_slice(&sym::u16().to_le_bytes());
    let name = n - 4 - 4 - 12 - 2;
    b[name..name + 2].copy_from_slice(&sym::u16().to_le_bytes());
    sym::cover(if read_document(&b).is_some() { "accepted" } else { "rejected" });
}}
entry! { h_coords {
    let i = (sym::u32() & 0x3ff) as i32;
    let j = (sym::u32() & 0x3ff) as i32;
    let m: MapCoord = MapCellCoord::new(i, j).into();
    let c: MapCellCoord = m.into();
    sym::check((c.x == i) & (c.y == j), "a cell's centre is in the cell");
    let t: MapTerrainCoord = m.into();
    sym::check((t.x == i + 1) & (t.y == j + 1), "a cell's centre is rounded up to a terrain point");
    let m: MapCoord = MapTerrainCoord::new(i, j).into();
    let t: MapTerrainCoord = m.into();
    sym::check((t.x == i) & (t.y == j), "a terrain point is at its own place");
    let c: MapCellCoord = m.into();
    sym::check((c.x == i) & (c.y == j), "a terrain point is in the cell to its upper right");
    let info = MapInfo { cell_left: (sym::u32() & 0xff) as i32, cell_bottom: (sym::u32() & 0xff) as i32, ..Default::default() };
    let p = PlayableTerrainCoord::from_map_terrain(&info, MapTerrainCoord::new(i, j));
    sym::check((p.x == i - info.cell_left) & (p.y == j - info.cell_bottom), "relative to the playable area");
    sym::cover("coordinates");
}}
// Any place in a map, in 1/256.
entry! { h_coords_nearest {
    let (x, y) = (sym::u32() & 0xffff, sym::u32() & 0xffff);
    let t: MapTerrainCoord = MapCoord::new(x as f32 / 256.0, y as f32 / 256.0).into();
    let c: MapCellCoord = MapCoord::new(x as f32 / 256.0, y as f32 / 256.0).into();
    sym::check((t.x as u32 == (x + 128) / 256) & (t.y as u32 == (y + 128) / 256), "the nearest terrain point");
    sym::check((c.x as u32 == x / 256) & (c.y as u32 == y / 256), "the cell around a place");
    sym::cover("place");
}}
