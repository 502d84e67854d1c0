rsync -a --exclude build /repo/flatdata-cpp/ /tmp/repocopy/flatdata-cpp/ 2>/dev/null || cp -a /repo/flatdata-cpp/. /tmp/repocopy/flatdata-cpp/
cp -a /repo/flatdata-generator/. /tmp/repocopy/flatdata-generator/
cd /tmp/cppbuild && nice make -j8 > mk.log 2>&1 || tail -20 mk.log; ctest 2>&1 | tail -4
