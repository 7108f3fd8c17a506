// Generated by tools/gen_gaunt.py: invariant couplings of real spherical harmonics,
// 2 sqrt(pi) * integral Y_{l1 m1} Y_{l2 m2} Y_{L M}, times 2^100.  (l1,l2,L) -> [(m1,m2,M,value)]
module gaunt {
  pure val GAUNT: (int, int, int) -> List[(int, int, int, int)] = Map(
    (0, 0, 0) -> [(0, 0, 0, 1267650600228229401496703205376)],
    (0, 1, 1) -> [(0, -1, -1, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (0, 1, 1, 1267650600228229401496703205376)],
    (0, 2, 2) -> [(0, -2, -2, 1267650600228229401496703205376), (0, -1, -1, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (0, 1, 1, 1267650600228229401496703205376), (0, 2, 2, 1267650600228229401496703205376)],
    (1, 0, 1) -> [(-1, 0, -1, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (1, 0, 1, 1267650600228229401496703205376)],
    (1, 1, 0) -> [(-1, -1, 0, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (1, 1, 0, 1267650600228229401496703205376)],
    (1, 1, 2) -> [(-1, -1, 0, -566910582765746272947525491715), (-1, -1, 2, -981917932698753682011848902297), (-1, 0, -1, 981917932698753682011848902296), (-1, 1, -2, 981917932698753682011848902296), (0, -1, -1, 981917932698753682011848902296), (0, 0, 0, 1133821165531492545895050983428), (0, 1, 1, 981917932698753682011848902296), (1, -1, -2, 981917932698753682011848902296), (1, 0, 1, 981917932698753682011848902296), (1, 1, 0, -566910582765746272947525491715), (1, 1, 2, 981917932698753682011848902296)],
    (1, 2, 1) -> [(-1, -2, 1, 981917932698753682011848902296), (-1, -1, 0, 981917932698753682011848902296), (-1, 0, -1, -566910582765746272947525491715), (-1, 2, -1, -981917932698753682011848902297), (0, -1, -1, 981917932698753682011848902296), (0, 0, 0, 1133821165531492545895050983428), (0, 1, 1, 981917932698753682011848902296), (1, -2, -1, 981917932698753682011848902296), (1, 0, 1, -566910582765746272947525491715), (1, 1, 0, 981917932698753682011848902296), (1, 2, 1, 981917932698753682011848902296)],
    (2, 0, 2) -> [(-2, 0, -2, 1267650600228229401496703205376), (-1, 0, -1, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (1, 0, 1, 1267650600228229401496703205376), (2, 0, 2, 1267650600228229401496703205376)],
    (2, 1, 1) -> [(-2, -1, 1, 981917932698753682011848902296), (-2, 1, -1, 981917932698753682011848902296), (-1, -1, 0, 981917932698753682011848902296), (-1, 0, -1, 981917932698753682011848902296), (0, -1, -1, -566910582765746272947525491715), (0, 0, 0, 1133821165531492545895050983428), (0, 1, 1, -566910582765746272947525491715), (1, 0, 1, 981917932698753682011848902296), (1, 1, 0, 981917932698753682011848902296), (2, -1, -1, -981917932698753682011848902297), (2, 1, 1, 981917932698753682011848902296)],
    (2, 2, 0) -> [(-2, -2, 0, 1267650600228229401496703205376), (-1, -1, 0, 1267650600228229401496703205376), (0, 0, 0, 1267650600228229401496703205376), (1, 1, 0, 1267650600228229401496703205376), (2, 2, 0, 1267650600228229401496703205376)],
    (2, 2, 2) -> [(-2, -2, 0, -809872261093923247067893559592), (-2, -1, 1, 701369951927681201437034930212), (-2, 0, -2, -809872261093923247067893559592), (-2, 1, -1, 701369951927681201437034930212), (-1, -2, 1, 701369951927681201437034930212), (-1, -1, 0, 404936130546961623533946779795), (-1, -1, 2, -701369951927681201437034930213), (-1, 0, -1, 404936130546961623533946779795), (-1, 1, -2, 701369951927681201437034930212), (-1, 2, -1, -701369951927681201437034930213), (0, -2, -2, -809872261093923247067893559592), (0, -1, -1, 404936130546961623533946779795), (0, 0, 0, 809872261093923247067893559591), (0, 1, 1, 404936130546961623533946779795), (0, 2, 2, -809872261093923247067893559592), (1, -2, -1, 701369951927681201437034930212), (1, -1, -2, 701369951927681201437034930212), (1, 0, 1, 404936130546961623533946779795), (1, 1, 0, 404936130546961623533946779795), (1, 1, 2, 701369951927681201437034930212), (1, 2, 1, 701369951927681201437034930212), (2, -1, -1, -701369951927681201437034930213), (2, 0, 2, -809872261093923247067893559592), (2, 1, 1, 701369951927681201437034930212), (2, 2, 0, -809872261093923247067893559592)]
  )
}
