From 19025eb96b619faf5ae68c84e5de05f399424701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 001/156] fix: Chinese calendar table, years with an
 intercalary twelfth month of 30 days

The bit for a 30-day intercalary twelfth month was stored in the bit of the
year's first month.  Eight years came out a day short of the following New
Year (and day_to_dmy() looped forever on the missing day);  in fourteen more
the first month was given 30 days instead of the last.
---
 chinese.dat | 36 ++++++++++++++++++------------------
 chinese.h   | 46 +++++++++++++++++++++++-----------------------
 2 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..7f79c90 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -1,40 +1,40 @@
 '��d��IG��v�UF��B�m%�uE�jK��K��ˢI�J˰Uʛ�҈�©����ҋ�����M�JM��j�[�����%��F��M�R���J�M��ʛjӈtéi��˷R���֑���UE����������놩K��;�R��ʢUU�Z��ʛԕ��ũ���η�M��ꑫʰZE��J�ꊫ����I��v�UF���mE�uE�r˛d�����I���v��������°����k��K���I�J��
 �k�����%����Λ����ΩJ͙M��ʢjӑt��i��Rw�RG���KU�UE��j��J����K�������ڈ�ʩV���j��ʢ���ԅ��M��}��M��
-�V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
-�lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
+�V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�RW�RG���KU�U��
+�lՈ�ũ���Rw����������V�����ڊ����K��M��]�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
-�Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
-�M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+�Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ڒ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�M�UE��ʌ�J��ś�+������%���ʢV�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
-��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
-�lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
+��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��b��bG�I�S��UE��
+�lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���jӋt��iG�RW�RK��
 �K5�U��
-�j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�j�z�ś�+�������ڃ���V����|ڊ�ԕ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���VՋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
 �UyZ��F��F��͔�΃�΢J����|�ʛZE��ju銖R��RG��F�K�~UE��
 �jy���K����˔%�)ˢU����z�ʛ�E��+wɍ�����N�*�Vz~ZI��
-�Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
+�Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛J[�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
 ���z�ś�����u���&��ʢZ����|ꊝ���NwIO��Ά*�s�D�[�~mE�jˍd�z�ǛI����u�ʔ����¢�����|ҋ���IyJM��
 �-�q����~�F��͍��|�ΛJ����u�ʔZ��jâ醏Ҏ~R���F�KuwME��ʄ���t�ik��K�Rˍ%�z%˛Uņ��s�ʔ����Ţɍ���~�M�&M�VuwZE��
-���q���n�I��΍*{��kņ��sj˔eǄ���I����|���-E�m�u�������s��I{�J��ʍ55yZ��ņ��u�͔�̈́�΢JM���|�ʛZE��Fw醖R���q��K�~UE��
+���q���n�I��΍*{��kņ��sj˔dׄ���I����|���-E�m�u�������s��I{�J��ʍ55yZ��ņ��u�͔�̈́�΢JM���|�ʛZE��Fw醖R���q��K�~UE��
 �j{t�iˆR�u���%{�%ˢU����|�ʛ�E��Kw�M���%�q*�Vy�ZE��
 ���z�ƛ�Ά��u�Δ*̈́��kɍ��|j��dG�IowIG���+5p-E���~�E�����z�˛I����s�ʔU��ZŢ�ƍ��|ҍ���J}wJM��
 �V�qZE�٪~�F�RǍ�Ny��Kņ��s�
-�k�tŢi��R�|���%K�KvwU���J�l�q����~�M��͍%{*�VɆ��s�ʔԅ��mnɎ���~�Λ*M�Vjwk���J���qd�Io�IG���+Uy-��	�j�s�˔�K�IwnI����|���V����uՊ�����q��J}�J��
+�j�tŢi��R�|���%K�KvwU���J�l�q����~�M��͍%{*�VɆ��s�ʔԅ��mnɎ���~�Λ*M�Vjwk���J���qd�Io�IG���+Uy-��	�j�s�˔�K�IwnI����|���V����uՊ�����q��J}�J��
 �VUyZ��ʆ��sRǔ��%ǢKƍ�*{�ʛjE�i�u���R�E�q%K�S�~UE��
-��Uy���ˆ��u�͔%��UznV���2{�ʛ�E��mwю���Jr+M�Z�~k��j��{d�Qǆ��s�Ɣ+5�5��ʍj�|�˛�K�QwwRK��J�M5pVE���~ي����Ky��J͆��s�ʔW�Z��ʍ��|R��Ŏ���wS���J�ZUplE�i�~�K�b�EWyE�UƆ�r���E����ˍ��|���IM�U�uV���B��%pՅ�ѭ~�N��΍JMyKM�Zʆ��sj����nnQ���.{�ƛK����u�ʔjC�i7p��QwRK��
+��Uy���ˆ��u�͔%��UznV���2{�ʛ�E��mwю���Jr+M�Z�~k��j��{d�Qǆ��s�Ɣ+5�5��ʍj�|�˛�K�QwwRK��J�M5pVE���~ي����Ky��J͆��s�ʔV�Z��ʍ��|R��Ŏ���wS���J�ZUplE�i�~�K�b�EWyE�UƆ�r���E����ˍ��|���IM�U�uV���B��%pՅ�ѭ~�N��΍JMyKM�Zʆ��sj����nnQ���.{�ƛK����u�ʔjC�i7p��QwRK��
 �MUyVE��
 ���s�Ŕ��R}n�����|�ʛV��ժu銖�F��Np�N����S���J�ZEymE�j�T�sdǔI����l�ƍ�4{��ņj�u�����I[pIM���~VJ��B���w�E��͆��s�ΔJ�K��
 �Z3{jÛ醈ҮuQ���N�JrK���
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
@@ -91,7 +91,7 @@ w
 w�4b�D�զp�F��~�m��J�z��e�
 �Z�tjÔi�R�nR���F|K�gM���Jujd�E���p�K���%[k�
 �U�x��e�
-��u�ƔɎ���n���&M|VuiZ���Ju��cT�ɮpIG��~+Mk�D�kwj�ejˆd�sIw`I����n�ʍ��z��g����Ku��c��I�rJM��
+��u�ƔɎ���n���&M|VuiZ���Ju��cT�ɮpIG��~+Mk�D�kwj�ejˆd�sIw`I����n�ʍ��z��g����Ku��c��I�rJM��
 ~6UkZ��w��e�Ά��v��J����n�ʍZ�zժgi��Rw�Nb�F�K�pME��J|jUk����xR�e�͆%{t%˔U��*m�ʍ�E|��gɎ��w%d&M�V�pZE��
 ~�VkT�I�x��g��+5s��k�j+m�ˍdG|I�iI���Ju+Ub-E��	o����~�m��I�x��e�ʆ65sZ�����n�΍�N|J�iK����sVUbZE���pi��R~�Nk%�Kw�*d�
 �j�si�^��R�n���%�zM�gU���Ju�5b�E���p�N��~%]k*�V�x�*d�
diff --git a/chinese.h b/chinese.h
index 8cf6a90..1e838fa 100644
--- a/chinese.h
+++ b/chinese.h
@@ -61,14 +61,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xa4, 0xa4, 0xae, 0x93, 0xa5, 0xce, 0xb0, 0x4a,
 0x4d, 0x9f, 0xaa, 0x6a, 0x8c, 0xad, 0x8a, 0xab,
 0x6a, 0x43, 0x98, 0xe9, 0x26, 0x85, 0x69, 0x47,
-0xa6, 0x53, 0x47, 0x96, 0x52, 0x47, 0xb4, 0xa5,
+0xa6, 0x52, 0x57, 0x96, 0x52, 0x47, 0xb4, 0xa5,
 0x06, 0xa1, 0x4b, 0x55, 0x8e, 0x55, 0x05, 0xaf,
 0xad, 0x0a, 0x9a, 0x6c, 0xd5, 0x88, 0xb4, 0xc5,
 0xa9, 0xa9, 0x8b, 0x96, 0x52, 0x77, 0x83, 0x92,
 0x8b, 0xa4, 0xa5, 0xfa, 0x91, 0xaa, 0x8a, 0xb2,
 0x56, 0x85, 0x9d, 0xb5, 0xaa, 0x8a, 0xda, 0x8a,
 0xab, 0xd4, 0x05, 0x9a, 0xa9, 0x4b, 0x85, 0xc9,
-0x4d, 0xa6, 0x93, 0x4d, 0x96, 0x92, 0x0d, 0xb6,
+0x4d, 0xa6, 0x92, 0x5d, 0x96, 0x92, 0x0d, 0xb6,
 0xaa, 0x0c, 0xa1, 0x56, 0x45, 0x8e, 0x6b, 0x45,
 0xad, 0xda, 0xca, 0x9b, 0xd4, 0xd5, 0x88, 0xe4,
 0xc6, 0xa9, 0xc9, 0x8e, 0x96, 0x92, 0x2e, 0x85,
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -139,7 +139,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x81, 0xb6, 0xc2, 0xa2, 0xb5, 0x25, 0x8f, 0xd5,
 0x05, 0xaf, 0xd1, 0x8b, 0x9d, 0xa2, 0x7b, 0x8c,
 0xa2, 0x4d, 0xad, 0x2a, 0x0d, 0x9a, 0x55, 0x1a,
-0x87, 0x5a, 0x49, 0xa6, 0xdb, 0x82, 0x94, 0xea,
+0x87, 0x5a, 0x49, 0xa6, 0xda, 0x92, 0x94, 0xea,
 0x4a, 0xb4, 0xd8, 0xc5, 0xa2, 0xd1, 0x4d, 0x8e,
 0xd1, 0x0e, 0xaf, 0xa4, 0x8e, 0x9d, 0x4a, 0xad,
 0x8a, 0x2b, 0x05, 0xa8, 0x6b, 0xc9, 0x94, 0xda,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -222,7 +222,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xb5, 0xca, 0x8c, 0xba, 0x4a, 0xad, 0xb4, 0xc5,
 0x9b, 0xa9, 0x2b, 0x87, 0xc9, 0x0d, 0xa8, 0x92,
 0x8d, 0x96, 0x25, 0x9b, 0x83, 0xaa, 0xca, 0xa2,
-0x57, 0x05, 0x91, 0x5a, 0xc5, 0xb0, 0xda, 0x8a,
+0x56, 0x15, 0x91, 0x5a, 0xc5, 0xb0, 0xda, 0x8a,
 0x9d, 0xd4, 0xd5, 0x8a, 0xe4, 0x86, 0xab, 0xc9,
 0x4e, 0x98, 0x92, 0x2d, 0x87, 0x93, 0x86, 0xa4,
 0xab, 0x4c, 0x91, 0x5a, 0xe5, 0x7f, 0x6d, 0x45,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -333,14 +333,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc9, 0x2e, 0x89, 0xc9, 0xce, 0xa9, 0x52, 0x4d,
 0x98, 0xaa, 0xaa, 0x83, 0xab, 0xca, 0xa2, 0x6a,
 0x45, 0x91, 0xea, 0x4a, 0x7e, 0x6a, 0x8b, 0x9d,
-0x63, 0x87, 0x8d, 0x62, 0x47, 0xad, 0x49, 0x07,
+0x62, 0x97, 0x8d, 0x62, 0x47, 0xad, 0x49, 0x07,
 0x9a, 0x53, 0x96, 0x85, 0x55, 0x45, 0xa6, 0xad,
 0x0a, 0x93, 0x6c, 0xc5, 0x81, 0xb5, 0x45, 0x9f,
 0xaa, 0xcb, 0x8d, 0xa2, 0x77, 0x7c, 0xa2, 0x8b,
 0x9d, 0x49, 0x3b, 0x89, 0x2a, 0xcd, 0xa9, 0x55,
 0x8a, 0x96, 0xb5, 0xb2, 0x83, 0xda, 0xc2, 0xa2,
 0xd5, 0x85, 0x8f, 0xb2, 0x4b, 0x7e, 0xd1, 0x4d,
-0x9f, 0xa3, 0x8d, 0x8d, 0xa4, 0x4e, 0xad, 0x4a,
+0x9f, 0xa2, 0x9d, 0x8d, 0xa4, 0x4e, 0xad, 0x4a,
 0x0d, 0x9a, 0x56, 0x4a, 0x87, 0x6b, 0x89, 0xa4,
 0xda, 0x02, 0x93, 0xd5, 0x26, 0x80, 0xe9, 0x06,
 0xa1, 0xd1, 0xce, 0x8d, 0xa2, 0x6e, 0x7c, 0xa5,
@@ -368,14 +368,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xb2, 0x7a, 0xda, 0xc2, 0x9b, 0xd5, 0x26, 0x88,
 0xe9, 0x06, 0xa8, 0xd2, 0x8e, 0x96, 0xa4, 0x6e,
 0x85, 0xa5, 0xc6, 0xa2, 0x4b, 0x85, 0x8f, 0x9b,
-0x8a, 0x7c, 0xad, 0x8a, 0x9d, 0x6b, 0xc3, 0x8b,
+0x8a, 0x7c, 0xad, 0x8a, 0x9d, 0x6a, 0xd3, 0x8b,
 0x74, 0x83, 0xab, 0x69, 0x47, 0x98, 0x52, 0x57,
 0x87, 0x52, 0x4b, 0xa6, 0xa5, 0x0a, 0x93, 0x4b,
 0x35, 0x80, 0x55, 0x05, 0xa1, 0xb5, 0x0a, 0x8c,
 0x6a, 0xb5, 0x7a, 0xb4, 0xc5, 0x9b, 0xa9, 0x2b,
 0x89, 0xa9, 0x0d, 0xa8, 0x92, 0x8d, 0x96, 0xa5,
 0xda, 0x83, 0xa6, 0x8a, 0xa4, 0x56, 0x85, 0x8f,
-0xb5, 0x8a, 0x7c, 0xda, 0x8a, 0x9d, 0xd5, 0x85,
+0xb5, 0x8a, 0x7c, 0xda, 0x8a, 0x9d, 0xd4, 0x95,
 0x8d, 0xd4, 0x86, 0xab, 0xc9, 0x4e, 0x98, 0x92,
 0x4d, 0x87, 0x93, 0x45, 0xa6, 0xab, 0x4a, 0x91,
 0x5a, 0x25, 0x80, 0x6b, 0x45, 0x9f, 0xea, 0xca,
@@ -404,14 +404,14 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
 0xb6, 0x02, 0x9a, 0xb5, 0x25, 0x88, 0xd5, 0x05,
 0xa8, 0xd2, 0xcb, 0x94, 0xa4, 0xdb, 0x83, 0xa4,
 0x8d, 0xa4, 0x4a, 0x4d, 0x91, 0x95, 0x9a, 0x7c,
-0x9a, 0x8a, 0x9d, 0x57, 0xc5, 0x8b, 0xda, 0x82,
+0x9a, 0x8a, 0x9d, 0x56, 0xd5, 0x8b, 0xda, 0x82,
 0xab, 0xd9, 0x86, 0x96, 0xd2, 0x8d, 0x85, 0xd2,
 0x46, 0xa6, 0xa5, 0x0e, 0x93, 0x4a, 0x2d, 0x80,
 0x4b, 0x45, 0x9f, 0xab, 0x0a, 0x8c, 0x5a, 0xb5,
@@ -479,7 +479,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x37, 0x77, 0x49, 0x47, 0x98, 0x95, 0xf6, 0x83,
 0x95, 0x8a, 0xa4, 0x2d, 0x45, 0x91, 0xad, 0x8a,
 0x7e, 0xb5, 0x85, 0x9d, 0xb2, 0x0b, 0x8c, 0xa4,
-0xdb, 0x7a, 0xa4, 0xcb, 0x9b, 0x4b, 0x4b, 0x88,
+0xdb, 0x7a, 0xa4, 0xcb, 0x9b, 0x4a, 0x5b, 0x88,
 0x4a, 0x0d, 0xa8, 0x96, 0xca, 0x94, 0x56, 0x15,
 0x82, 0x5a, 0x05, 0xa1, 0xd5, 0xca, 0x8d, 0xd2,
 0x8d, 0x7c, 0xd2, 0x8d, 0x9d, 0xa4, 0x4e, 0x8a,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -604,8 +604,8 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x85, 0xd4, 0xf5, 0x71, 0xd4, 0x06, 0x93, 0xc9,
 0x6e, 0x80, 0x49, 0x0f, 0xa1, 0x92, 0xce, 0x8d,
 0x2a, 0x0d, 0x7b, 0xab, 0x04, 0x9a, 0x6b, 0xc5,
-0x86, 0xda, 0xca, 0x73, 0x6a, 0xcb, 0x94, 0x65,
-0xc7, 0x84, 0xa4, 0x87, 0xa4, 0x49, 0x87, 0x8f,
+0x86, 0xda, 0xca, 0x73, 0x6a, 0xcb, 0x94, 0x64,
+0xd7, 0x84, 0xa4, 0x87, 0xa4, 0x49, 0x87, 0x8f,
 0x93, 0xd6, 0x7c, 0x95, 0x8a, 0x9d, 0x2d, 0x45,
 0x8a, 0x6d, 0xa9, 0x75, 0xb5, 0x85, 0x96, 0xaa,
 0x0b, 0x85, 0xa4, 0xb7, 0x73, 0xa4, 0x0b, 0x93,
@@ -640,7 +640,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x71, 0x5a, 0x45, 0x91, 0xd9, 0xaa, 0x7e, 0xe9,
 0x46, 0x9f, 0x52, 0xc7, 0x8d, 0xa5, 0x4e, 0x79,
 0xa5, 0x06, 0x9a, 0x4b, 0xc5, 0x86, 0xab, 0xca,
-0x73, 0xad, 0x0a, 0x93, 0x6b, 0x05, 0x83, 0x74,
+0x73, 0xad, 0x0a, 0x93, 0x6a, 0x15, 0x83, 0x74,
 0xc5, 0xa2, 0x69, 0x8b, 0x8f, 0x52, 0xd7, 0x7c,
 0x92, 0x8b, 0x9d, 0x25, 0x4b, 0x8a, 0x4b, 0x76,
 0x77, 0x55, 0x85, 0x96, 0xad, 0x4a, 0x83, 0x6c,
@@ -683,7 +683,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x45, 0x91, 0xb5, 0xca, 0x7e, 0xd9, 0x8a, 0x9d,
 0xd2, 0x05, 0x8c, 0xa5, 0x4b, 0x79, 0xa5, 0x0e,
 0x9a, 0x4a, 0xcd, 0x86, 0xa5, 0xfa, 0x73, 0xaa,
-0xca, 0x94, 0x57, 0x05, 0x83, 0x5a, 0x05, 0xa1,
+0xca, 0x94, 0x56, 0x15, 0x83, 0x5a, 0x05, 0xa1,
 0xd9, 0xca, 0x8d, 0xd2, 0xf6, 0x7c, 0x52, 0x87,
 0x9d, 0xc5, 0x8e, 0x88, 0x8a, 0x8e, 0x77, 0x53,
 0x86, 0x96, 0xab, 0x4a, 0x83, 0x5a, 0x55, 0x70,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
@@ -1059,7 +1059,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xa9, 0xcb, 0x70, 0xa9, 0x4b, 0x91, 0x92, 0xcd,
 0x7f, 0x25, 0x5b, 0x6b, 0xa5, 0x0a, 0x8c, 0x55,
 0xc5, 0x78, 0xad, 0xca, 0x65, 0xd5, 0x0a, 0x85,
-0xb5, 0x05, 0x75, 0xd4, 0xc6, 0x94, 0xc9, 0x8e,
+0xb4, 0x15, 0x75, 0xd4, 0xc6, 0x94, 0xc9, 0x8e,
 0x81, 0x92, 0xfd, 0x6e, 0x92, 0x8e, 0x8f, 0x26,
 0x4d, 0x7c, 0x56, 0x75, 0x69, 0x5a, 0x85, 0x88,
 0xda, 0x4a, 0x75, 0xd4, 0xf6, 0x63, 0x54, 0x07,
-- 
2.43.0


From ae7b75226b0b9e800e4fa9d88bc7aaaa409587dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:16 +0000
Subject: [PATCH 002/156] fix: Hebrew calendar, molad exactly at noon is
 postponed too

---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..2455c79 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From a03b370752777ebfa686e67d787ebf774634b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:16 +0000
Subject: [PATCH 003/156] fix: Persian calendar, length of the last month of
 year 2327

The length of year 2327 needs the start of 2328, which the table of breaks
rejected;  the final month came out as 126 days.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 2455c79..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 803f1b873aaafda75e61f1ae4f40ed63751a81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 004/156] fix: unpack_mpc_desig with no output buffer crashed
 on extended ('_') designations

A malformed one also left the provisional designation uninitialised.
---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..7594bb2 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -88,8 +88,12 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
       const int desig_num = get_mutant_hex_value( ibuff + 3, 4);
 
       if( year < 0 || desig_num < 0)
+         {
+         if( obuff)
+            *obuff = '\0';
          rval = -1;
-      else
+         }
+      else if( obuff)
          {
          char letter = 'A' + desig_num % 25;
 
-- 
2.43.0


From 165ec855a9637558db7d84fc8f566b7e56082c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 005/156] fix: unpacking provisional natural satellites 100 to
 109 lost the leading digit

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 7594bb2..3f4bbab 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -230,7 +230,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 02ff58d3cddd919c42569622e983c074565af1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 006/156] fix: unpack_unaligned_mpc_desig left overlong names
 unterminated

---
 unpack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpack.cpp b/unpack.cpp
index 3f4bbab..24706d5 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -381,6 +381,7 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
    if( len > 12)
       {
       memcpy( obuff, packed, 12);
+      obuff[12] = '\0';
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From d51634cfc3d0b1acc659e221ea854d202e03910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:48 +0000
Subject: [PATCH 007/156] fix: names that look like, but aren't, provisional
 desigs packed with leftover bytes

---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..77655d1 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -888,6 +888,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
 
    if( rval == -1)       /* Undeciphered.  If 7 chars or less,  assume it's */
       {                  /* an observer-supplied desig.  8 or more chars,   */
+      memset( packed_desig, ' ', 12);
       if( comet_desig)   /* start with '$' and put in up to eleven bytes of */
          {               /* the input name. */
          obj_name -= 2;
-- 
2.43.0


From 928f1f8c1e0dfe24a8c3750af16abad63f2ab896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 008/156] fix: provisional desigs the packed scheme can't
 express were 'packed' into blanks or collisions

e.g. 1995 XA700,  C/2003 M700,  C/1999 AB5-C
---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 77655d1..52513fa 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -802,7 +802,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             packed_desig[10] = int_to_mutant_hex_char( sub_designator % 10);
             packed_desig[9] = int_to_mutant_hex_char( sub_designator / 10);
             }
-         else if( number >= 2000 && number < 2062)
+         else if( number >= 2000 && number < 2062 && isupper( packed_desig[11])
+                           && packed_desig[11] != 'I' && sub_designator < 1000000)
             {
             int n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
 
@@ -818,12 +819,15 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
             {
             packed_desig[4] = comet_desig;
-            if( obj_name[i] == '-' && isupper( obj_name[i + 1]))
+            if( obj_name[i] == '-' && isupper( obj_name[i + 1])
+                           && packed_desig[5] != '_' && packed_desig[11] == '0')
                {        /* Comet fragment such as C/2018 F4-A */
                i++;     /* pack as,  e.g.,  CK18F04a */
                packed_desig[11] = obj_name[i++] + 'a' - 'A';
-- 
2.43.0


From d37a0582b2687f62fb85c8df17f896ea6f86e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 009/156] fix: Palomar-Leiden and Trojan survey desigs above
 9000 (9506 P-L, etc.) weren't packed

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 52513fa..cb71c0c 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -757,7 +757,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       i++;
                /* If the name starts with four digits followed by an */
                /* uppercase letter,  it's a provisional designation: */
-   if( number > 999 && number < 9000 && isupper( obj_name[i]))
+   if( number > 999 && number < 10000 && isupper( obj_name[i]))
       {
       int sub_designator;
       bool mangled_designation = false;
-- 
2.43.0


From 47e3d4be7650da86b85dfb817f8ee8689d180c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:14 +0000
Subject: [PATCH 010/156] fix: unpacking long satellite names (Jupiter
 DCCCLXXXVIII) or a number plus an extended desig aborted

---
 unpack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 24706d5..5cfaae1 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -173,7 +173,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 30;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
@@ -255,7 +255,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
             if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+               snprintf_append( obuff, obuff_size, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -283,7 +283,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
                if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+                  snprintf_append( obuff, obuff_size, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From 62a2b8acfa9492e574c00d5cbb7a0703736740a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:16 +0000
Subject: [PATCH 011/156] fix: full_ctime overflowed its day buffer for twelve
 or more decimals (FULL_CTIME_PICODAYS, FEMTODAYS)

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..2a41165 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -384,7 +384,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[20];
 
       if( format & FULL_CTIME_MONTHS_AS_DIGITS)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
-- 
2.43.0


From ba9a52be19edca4181d83cb3aa09043280fe4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 012/156] fix: get_time_from_string wrote one byte past its
 buffer when adding spaces to long input

---
 get_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..2fae2ba 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -432,7 +432,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
              /* 'Q' is an exception to avoid '1q' becoming '1 q'.         */
    *str = (char)tolower( *time_str++);
    i = 1;
-   while( (size_t)i < sizeof( buff) - 1 && *time_str)
+   while( (size_t)i < sizeof( buff) - 2 && *time_str)
       {
       if( (isalpha( *time_str) && isdigit( time_str[-1]))
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
-- 
2.43.0


From 8040a47153b6bf61d5cf3080abdd0bf0c3eff8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:34 +0000
Subject: [PATCH 013/156] fix: runs of spaces in a time string (as full_ctime
 writes them: 'Jan  1 2009') were read as empty fields

---
 get_time.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 2fae2ba..259ccd9 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -434,6 +434,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    i = 1;
    while( (size_t)i < sizeof( buff) - 2 && *time_str)
       {
+      if( *time_str == ' ' && str[i - 1] == ' ')
+         {                       /* a run of spaces counts as one */
+         time_str++;
+         continue;
+         }
       if( (isalpha( *time_str) && isdigit( time_str[-1]))
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
          if( *time_str != 'q' && *time_str != 'Q')
-- 
2.43.0


From 5fda5dca68c2514d973ab74367fd5b09a3db46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 014/156] fix: times such as '1.5 Jan 12' (decimal day, month
 name, year below 33) aborted the program

---
 get_time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 259ccd9..f54132d 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -771,6 +771,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                   else   /* if month is 1st or last, year must be last/1st */
                      year_found = 4 - month_found;
                   }
+               else              /* both day and month were found: */
+                  year_found = 6 - month_found - day_found;
                }
             else        /* year_found... */
                if( !month_found && !day_found)  /* ...but nothing else */
-- 
2.43.0


From 0c3ea5a0af4809e48c54aa30d9df164c0c2b09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:51 +0000
Subject: [PATCH 015/156] fix: dates in the thirteenth (leftover) month of the
 French revolutionary calendar were misread

---
 get_time.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index f54132d..56e9696 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -401,9 +401,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
          const char *time_str, const int time_format, int *is_ut)
 {
    const int calendar = (time_format & CALENDAR_MASK);
-            /* Certain solar-lunar calendars can have 13 months in a year: */
+            /* Certain solar-lunar calendars can have 13 months in a year; */
+            /* French revolutionary leftover days are a thirteenth 'month': */
    const int max_month =
-             ((calendar == CALENDAR_HEBREW || calendar == CALENDAR_CHINESE)
+             ((calendar == CALENDAR_HEBREW || calendar == CALENDAR_CHINESE
+                    || calendar == CALENDAR_REVOLUTIONARY)
                     ? 13 : 12);
    int iday, month, hour, minute, n_bytes;
    int ival, colon_found = 0, is_bc = 0;
-- 
2.43.0


From ddd53e5c50194c2fc914573d66784970cfeb9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:51 +0000
Subject: [PATCH 016/156] fix: FULL_CTIME_ROUNDING rounded JD and MJD values
 twice

---
 miscell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/miscell.cpp b/miscell.cpp
index 2a41165..1286988 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -350,6 +350,8 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char format_str[10];
 
+      if( format & FULL_CTIME_ROUNDING)
+         t2k -= add_on;          /* printf() will do the rounding */
       snprintf_err( format_str, sizeof( format_str), "JD %%.%dLf", precision);
       if( output_format == FULL_CTIME_FORMAT_MJD)
          {
-- 
2.43.0


From cecdeb02abfd7c9f30af7e2f2a13c838eef55c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 017/156] fix: get_time_from_string looped forever on text such
 as '1-2 3 s'

---
 get_time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 56e9696..d60269d 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -161,6 +161,8 @@ static inline long double collect_time_offset( char *istr)
                      len--;
                   istr[len] = '\0';
                   }
+               else
+                  rval = 0.;     /* not really an offset after all */
          }
       else if( *istr == '-' || *istr == '+')  /* just add/subtract N days: */
          {
-- 
2.43.0


From 6595cfbd9996cc3af599d0dd5e44ced0b7193bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 018/156] fix: a time offset of zero ('+0d') hid any offsets
 given before it

---
 get_time.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index d60269d..297f196 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -451,11 +451,12 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
       }
    str[i] = '\0';
    remove_trailing_spaces( str);
-   while( *str && (tval = collect_time_offset( str)) != 0.)
+   do
       {
+      i = (unsigned)strlen( str);
+      offset += collect_time_offset( str);
       remove_trailing_spaces( str);
-      offset += tval;
-      }
+      } while( *str && strlen( str) < (size_t)i);
 
    i = (int)strlen( str);
    if( i > 1)
-- 
2.43.0


From a9cb627309aa105e269745feeaa1b8d3e1a8915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 019/156] fix: contradictory date fields (a negative number
 with a decimal point) aborted the program

---
 get_time.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 297f196..1eced0e 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -795,9 +795,13 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                day_found = 6 - year_found - month_found;
             else if( !month_found)
                month_found = 6 - year_found - day_found;
-            assert( year_found > 0 && year_found < 4);
-            assert( month_found > 0 && month_found < 4);
-            assert( day_found > 0 && day_found < 4);
+            if( year_found < 1 || year_found > 3 || month_found < 1
+                     || month_found > 3 || day_found < 1 || day_found > 3)
+               {                 /* contradictory fields,  e.g. 1 -2.5 3 */
+               if( is_ut)
+                  *is_ut = -7;
+               return( initial_t2k);
+               }
             year = (long)floorl( ivals[year_found - 1] + .5);
             dday = ivals[day_found - 1];
             month = (int)( ivals[month_found - 1] + .5);
-- 
2.43.0


From de4828e422d8d3e370e8b4a43cbcae4c4eaf0590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:57 +0000
Subject: [PATCH 020/156] fix: day-of-week input was off by a day or a week for
 times before 2000

---
 get_time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 1eced0e..976b462 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -826,7 +826,9 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               ival -= ((long)floorl( initial_t2k + 6.5)) % 7;
+               if( ival > 6)        /* initial time was before 2000 */
+                  ival -= 7;
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From e5d872816ee0dffc96876d462622d46c7ae10ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:58 +0000
Subject: [PATCH 021/156] fix: tdb_minus_utc added TDB-TDT in days to TD-UTC in
 seconds

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..96f6570 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From bee4dbe59c3ca0eda8c7c1549b50876f2f2cb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:41 +0000
Subject: [PATCH 022/156] fix: MPC observation dates of 15-31 October 1582 were
 read ten days late

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index cb71c0c..2c0ff93 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -267,8 +267,12 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
       }
 
    if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-      rval += (double)dmy_to_day( 0, month, year,
-                                    CALENDAR_JULIAN_GREGORIAN) - .5;
+      {
+      const int day = (int)rval;    /* matters for October 1582 */
+
+      rval += (double)dmy_to_day( day, month, year,
+                                    CALENDAR_JULIAN_GREGORIAN) - day - .5;
+      }
 
              /* Radar obs are always given to the nearest UTC second. So  */
              /* some rounding is usually required with MPC microday data. */
-- 
2.43.0


From 6f11bedfbdcd23cdc5c7ee7a9d93280850f79595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:43 +0000
Subject: [PATCH 023/156] fix: RA/decs in format 307 (HHMMSSs, seven packed
 digits) couldn't be read

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 2c0ff93..a121973 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -363,7 +363,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i > 6)        /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From b749165a94a0e3e8b0563f642797c783958a9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:44 +0000
Subject: [PATCH 024/156] fix: angles in whole degrees or hours (formats 100,
 200) were shown without a decimal point, and format 200 in hours

---
 mpc_fmt2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..392672d 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,7 +51,7 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
@@ -60,6 +60,8 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
       snprintf( obuff, 4, (two_digits ? "%02u" : "%03u"),
                   (int)( fraction / power_mul));
       fraction %= power_mul;
+      if( !n_digits_to_show)
+         strcat( obuff, ".");
       }
    else
       switch( precision)
-- 
2.43.0


From 22ebfd13aff247147186c9000d05f1264b8b7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:01 +0000
Subject: [PATCH 025/156] fix: angles with more than nine decimals (or digits)
 overflowed and were misread

---
 mpc_code.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..ac32ce9 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -217,7 +217,7 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
+   double integer_part = 0.;
    double rval;
 
    if( endptr)
@@ -234,12 +234,12 @@ double quick_strtod( const char *ibuff, const char **endptr)
    if( *ibuff >= '0' && *ibuff <= '9')
       got_a_digit = true;
    while( *ibuff >= '0' && *ibuff <= '9')
-      integer_part = integer_part * 10 + (*ibuff++ - '0');
+      integer_part = integer_part * 10. + (double)(*ibuff++ - '0');
    if( *ibuff != '.')
-      rval = (double)integer_part;
+      rval = integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      double frac_part = 0., divisor = 1.;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -247,10 +247,14 @@ double quick_strtod( const char *ibuff, const char **endptr)
             return( 0.);
       while( *ibuff >= '0' && *ibuff <= '9')
          {
-         frac_part = frac_part * 10 + (*ibuff++ - '0');
-         divisor *= 10;
+         if( divisor < 1e+15)       /* further digits won't matter */
+            {
+            frac_part = frac_part * 10. + (double)( *ibuff - '0');
+            divisor *= 10.;
+            }
+         ibuff++;
          }
-      rval = (double)integer_part + (double)frac_part / (double)divisor;
+      rval = integer_part + frac_part / divisor;
       }
    if( endptr)
       *endptr = ibuff;
-- 
2.43.0


From 353ff2e44aa2e0d96d56d7b785aaeee07233fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:03 +0000
Subject: [PATCH 026/156] fix: get_dec_from_string accepted declinations past
 90 degrees as one byte long

---
 mpc_code.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index ac32ce9..2244a66 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -694,10 +694,10 @@ double get_dec_from_string( const char *buff, int *bytes_read)
 
       if( !n_fields || rval > 90.)
          *bytes_read = 0;
+      else
+         (*bytes_read)++;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
-         (*bytes_read)++;
       return( rval * PI / 180.);
       }
 }
-- 
2.43.0


From 808fd799772dec64a40262aa4c302872de618e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 027/156] fix: uncertainties and correlations of one ADES
 observation were attached to later ones

---
 ades2mpc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 06ec766..9101d09 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -930,6 +930,8 @@ static void setup_observation( ades2mpc_t *cptr)
    memset( cptr->line2, ' ', 80);
    strlcpy_err( cptr->line2 + 80, "\n", 2);
    cptr->line2[0] = '\0';
+   cptr->rms_ra[0] = cptr->rms_dec[0] = cptr->corr[0] = '\0';
+   cptr->rms_mag[0] = cptr->rms_time[0] = '\0';
    cptr->id_set = 0;
    cptr->spacecraft_center = 399;      /* default to geocentric */
    cptr->full_t2k = NOT_A_VALID_TIME;
-- 
2.43.0


From c0d1a97f555499e0d886c6e0c82ffd304d76ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 028/156] fix: ADES satellite/roving observer positions without
 a decimal point crashed, and long ones overwrote the next field

---
 ades2mpc.cpp | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 9101d09..544e2b5 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -551,11 +551,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
 
    assert( obuff);
    *obuff = '\0';
-   if( len < sizeof( name))
-      {
-      memcpy( name, tptr, len);
-      name[len] = '\0';
-      }
+   strlcpy( name, tptr, (len < sizeof( name) - 3 ? len + 1 : sizeof( name) - 2));
    switch( itag)
       {
       case ADES_mpcCode:
@@ -704,7 +700,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          if( cptr->line[14] == 'S')    /* satellite offset */
             {
             const int sign_loc = 34 + (itag - ADES_pos1) * 12;
-            int nlen = (int)len, decimal_loc = 0;
+            int nlen, decimal_loc = 0;
             char *tptr2;
 
             if( cptr->line2[32] == '2')
@@ -719,13 +715,15 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                      /* cvt scientific notation,  if any : */
             if( strchr( name, 'e') || strchr( name, 'E'))
                {
-               snprintf_err( name, sizeof( name), "%.13f", atof( name));
-               nlen = 12;
+               const double value = atof( name);
+
+               snprintf_err( name, sizeof( name), "%.13f", value);
                }
+            if( !strchr( name, '.'))      /* whole number of km or AU */
+               strlcat_err( name, ".", sizeof( name));
             if( *name != '+' && *name != '-')   /* no sign provided; */
                {                             /* insert one */
-               nlen++;
-               memmove( name + 1, name, nlen);
+               memmove( name + 1, name, strlen( name) + 1);
                *name = '+';
                }
             cptr->line2[sign_loc] = *name;
@@ -755,15 +753,19 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             if( decimal_loc)
                {
                decimal_loc -= (int)(tptr2 - name);
-               memcpy( &cptr->line2[decimal_loc + 1], name + 1,
-                                           (nlen > 11 ? 10 : nlen - 1));
+               nlen = (int)strlen( name) - 1;      /* excluding the sign */
+               if( nlen > sign_loc + 11 - decimal_loc)
+                  nlen = sign_loc + 11 - decimal_loc;
+               memcpy( &cptr->line2[decimal_loc + 1], name + 1, nlen);
                }
             }
          else               /* roving observer */
             {
             char *tptr2 = strchr( name, '.');
-            size_t loc;
+            size_t loc, end_loc = 45;
 
+            if( !tptr2)          /* whole number of degrees or meters */
+               tptr2 = name + len;
             if( itag == ADES_pos1)     /* East longitude */
                loc = 37 - (tptr2 - name);
             else if( itag == ADES_pos2)
@@ -778,9 +780,17 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                else
                   cptr->line2[45] = '+';
                loc = 48 - (tptr2 - name);
+               end_loc = 55;
                }
             else           /* altitude */
-               loc = 61 - len;
+               {
+               end_loc = 61;
+               if( len > 6)
+                  len = 6;
+               loc = end_loc - len;
+               }
+            if( len > end_loc - loc)
+               len = end_loc - loc;
             memcpy( cptr->line2 + loc, name, len);
             }
          break;
-- 
2.43.0


From efe909d906cb54316ea1ba4504731e96aaf481c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 029/156] fix: the RA/dec correlation was dropped if both ADES
 uncertainties were equal

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 544e2b5..f13701e 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -436,7 +436,7 @@ static int get_a_line( char *obuff, const size_t obuff_size, ades2mpc_t *cptr)
    if (cptr->rms_ra[0])
       {
       snprintf_err( obuff, obuff_size, "COM Sigmas %s", cptr->rms_ra);
-      if( strcmp( cptr->rms_ra, cptr->rms_dec))
+      if( strcmp( cptr->rms_ra, cptr->rms_dec) || atof( cptr->corr))
          {
          snprintf_append( obuff, obuff_size, "x%s", cptr->rms_dec);
          if( atof( cptr->corr))
-- 
2.43.0


From 4e9a5c043d1e1d3558a7d55aac6234132b3ca2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:40 +0000
Subject: [PATCH 030/156] fix: ADES times with more than three decimals
 overwrote an RA given in an earlier column

---
 ades2mpc.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index f13701e..676983a 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -376,25 +376,27 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
 
 static inline size_t move_fits_time( char *optr, const char *iptr)
 {
-   char *optr0 = optr;
+   size_t n_bytes = 0;
 
    if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
 
-      *optr++ = int_to_mutant_hex_char( century);
+      optr[n_bytes++] = int_to_mutant_hex_char( century);
       iptr += 2;
       while( *iptr && *iptr != 'Z')
          {
-         if( *iptr >= '0' && *iptr <= '9')
-            *optr++ = *iptr;
-         else if( *iptr == 'T')
-            *optr++ = ':';
+         if( (*iptr >= '0' && *iptr <= '9') || *iptr == 'T')
+            {
+            if( n_bytes < 17)       /* excess digits would run into the RA */
+               optr[n_bytes] = (*iptr == 'T' ? ':' : *iptr);
+            n_bytes++;
+            }
          iptr++;
          }
       }
-   return( optr - optr0);
+   return( n_bytes);
 }
 
 static inline int place_value( char *optr, const char *iptr, const size_t ilen,
-- 
2.43.0


From b7948e0f052dc86637bc4ecb67e54737c2b44e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:42 +0000
Subject: [PATCH 031/156] fix: the ADES tags comment line had no line end

---
 ades2mpc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 676983a..0f4f0cc 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -501,6 +501,7 @@ static int get_a_line( char *obuff, const size_t obuff_size, ades2mpc_t *cptr)
          snprintf_append( obuff, obuff_size, " notes:%s", cptr->notes);
       if( cptr->program_code[0] >= ' ')
          snprintf_append( obuff, obuff_size, " progcode:%s", cptr->program_code);
+      strlcat_err( obuff, "\n", obuff_size);
       cptr->passband[1] = cptr->notes[0] = cptr->program_code[0] = '\0';
       }
    else if( cptr->spacecraft_vel[0] || cptr->spacecraft_vel[1] || cptr->spacecraft_vel[2])
-- 
2.43.0


From d93972a16975c1a95c87a5945e763c639ec42d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 032/156] fix: an ADES time without a trailing Z was extended
 with digits of the following column

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 0f4f0cc..bfb1ae7 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -385,7 +385,7 @@ static inline size_t move_fits_time( char *optr, const char *iptr)
 
       optr[n_bytes++] = int_to_mutant_hex_char( century);
       iptr += 2;
-      while( *iptr && *iptr != 'Z')
+      while( *iptr && strchr( "0123456789-:.T", *iptr))
          {
          if( (*iptr >= '0' && *iptr <= '9') || *iptr == 'T')
             {
-- 
2.43.0


From fed5807b786bf53e09be84414dfd9ab05342127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:09 +0000
Subject: [PATCH 033/156] fix: an XML ADES header whose closing tag is on a
 later line was repeated endlessly

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index bfb1ae7..337e424 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1227,8 +1227,10 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          return rval;
       tptr = skip_whitespace( tptr);
       }
-   if( rval)
+   if( cptr->getting_lines)
       get_a_line( obuff, obuff_size, cptr);
+   else if( rval > 0)      /* header line,  already in the output buffer */
+      cptr->prev_line_passed_through = 1;
    if( orig_obuff)
       strlcpy_err( orig_obuff, temp_obuff, obuff_size);
    return( rval);
-- 
2.43.0


From 54b0e58935ce9009075528718cf3fe7080ee5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:11 +0000
Subject: [PATCH 034/156] fix: a tag split over lines in ADES XML was returned
 endlessly, and unbalanced tags ran off the tag stack

---
 ades2mpc.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 337e424..53051e4 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1191,16 +1191,17 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                {
                if( tptr[1] == '/')
                   {
-                  cptr->depth--;
-                  if( cptr->depth < 0 || cptr->tags[cptr->depth] != tag_idx)
+                  if( cptr->depth)
+                     cptr->depth--;
+                  else
+                     rval = ADES_CLOSING_UNOPENED_TAG;
+                  if( cptr->tags[cptr->depth] != tag_idx)
                      rval = ADES_CLOSING_UNOPENED_TAG;
                   }
+               else if( cptr->depth == MAX_DEPTH)
+                  rval = ADES_DEPTH_MAX;
                else
-                  {
                   cptr->tags[cptr->depth++] = tag_idx;
-                  if( cptr->depth == MAX_DEPTH)
-                     rval = ADES_DEPTH_MAX;
-                  }
                if( tag_idx == ADES_optical)
                   {
                   if( tptr[1] == '/')
@@ -1274,6 +1275,8 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
    ades2mpc_t *cptr = (ades2mpc_t *)ades_context;
    int prev_rval = cptr->prev_rval;
 
+   if( prev_rval < 0)      /* can't make sense of that line;  skip it */
+      prev_rval = 0;
    if( prev_rval)
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
-- 
2.43.0


From 81921108e67be9fb62fbc041d3f56e1ac0aa52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:31 +0000
Subject: [PATCH 035/156] fix: four words separated by pipes, or an unknown PSV
 column, stopped the program

---
 ades2mpc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 53051e4..853e870 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1027,7 +1027,7 @@ of PSV fields (which equals the number of pipe separators plus one.) */
 
 static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
 {
-   int n_psv_tags = 0;
+   int n_psv_tags = 0, n_known_tags = 0;
    const char *tptr = buff;
 
    while( tptr)
@@ -1035,6 +1035,12 @@ static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
       tptr = skip_whitespace( tptr);
       if( *tptr >= 'a' && *tptr <= 'z')
          {                /* could be a PSV header field */
+         int i = 0;
+
+         while( tptr[i] != '|' && tptr[i] > ' ')
+            i++;
+         if( find_tag( tptr, i) > 0)
+            n_known_tags++;
          n_psv_tags++;
          tptr = strchr( tptr, '|');
          if( tptr)
@@ -1043,7 +1049,7 @@ static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
       else     /* PSV header fields must start with a lowercase letter */
          return( 0);
       }
-   if( n_psv_tags < MIN_PSV_TAGS)
+   if( n_known_tags < MIN_PSV_TAGS)    /* just some text with pipes in it */
       return( 0);
    cptr->n_psv_fields = n_psv_tags;
    if( cptr->psv_tags)
@@ -1059,7 +1065,8 @@ static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
       while( tptr[i] != '|' && tptr[i] > ' ')
          i++;
       cptr->psv_tags[n_psv_tags] = find_tag( tptr, i);
-      assert( cptr->psv_tags[n_psv_tags] > 0);
+      if( !cptr->psv_tags[n_psv_tags])
+         cptr->psv_tags[n_psv_tags] = -1;    /* unknown column;  ignore it */
       n_psv_tags++;
       assert( tptr);
       tptr = strchr( tptr, '|');
-- 
2.43.0


From 36a013eeeead16313953da44d3e5461de30bcbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:49 +0000
Subject: [PATCH 036/156] fix: lines with Tholen sigmas lost their line end

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 853e870..4e72291 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -981,7 +981,7 @@ static int check_for_tholen_sigmas( ades2mpc_t *cptr, char *obuff, const char *i
          memcpy( cptr->rms_ra, ibuff + 81, 5);
          memcpy( cptr->rms_dec, ibuff + 87, 5);
          cptr->rms_ra[5] = cptr->rms_dec[5] = '\0';
-         strlcpy_err( cptr->line, obuff, sizeof( cptr->line));
+         memcpy( cptr->line, obuff, 80);
          obuff[12] = '\0';
          if( !create_mpc_packed_desig( packed_desig, obuff))
             memcpy( cptr->line, packed_desig, 12);
-- 
2.43.0


From 5af91499d28d74881c1a867e5dce3aa0cc274d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:49 +0000
Subject: [PATCH 037/156] fix: cubic term of the precession in longitude was
 ten times the IAU 1976 value

---
 precess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..1a8535f 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -90,7 +90,7 @@ static int setup_ecliptic_precession_from_j2000( double DLLPTR *matrix, const do
    const double eta = t * (47.0029 * S2R + (-.03302 * S2R + 6.e-5 * S2R * t) * t);
    const double pie = 174.876384 * PI / 180. -
            t * (869.8089 * S2R - .03536 * S2R * t);
-   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-5 * S2R * t) * t);
+   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-6 * S2R * t) * t);
 
    set_identity_matrix( matrix);
 #ifdef UNNECESSARY_MATH
-- 
2.43.0


From 4013b48c98e9f39c6592df4701a00186129cd735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:12 +0000
Subject: [PATCH 038/156] fix: precession between two epochs other than J2000
 multiplied the matrices in the wrong order

---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 1a8535f..1f72b47 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From 505c8af99d75bf2478aa4b0a242cb3f8dca202d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:07 +0000
Subject: [PATCH 039/156] fix: precess_ra_dec lost precision near the poles (up
 to half an arcminute for supergalactic coordinates)

---
 precess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precess.cpp b/precess.cpp
index 1f72b47..b1c24a2 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -331,7 +331,7 @@ int DLL_FUNC precess_ra_dec( const double DLLPTR *matrix,
       p_out[0] = atan2( v2[1], v2[0]);
    else
       p_out[0] = 0.;
-   p_out[1] = asine( v2[2]);
+   p_out[1] = atan2( v2[2], sqrt( v2[0] * v2[0] + v2[1] * v2[1]));
    while( p_out[0] - old_ra > PI)
       p_out[0] -= PI * 2.;
    while( p_out[0] - old_ra <-PI)
-- 
2.43.0


From 5d4f029577a0b58d8e95e977dad857c452e409f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:09 +0000
Subject: [PATCH 040/156] fix: azimuths ran backward for observers at the poles

---
 alt_az.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..9464794 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -35,7 +35,7 @@ static void ra_dec_to_alt_az( const double hr_ang, const double dec,
 
    *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
    if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
+      *az = (lat > 0. ? -hr_ang : PI + hr_ang);
    else
       {
       temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
@@ -99,7 +99,7 @@ static void alt_az_to_ra_dec( double alt, double az,
    sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
    *dec = asine( sin_dec);
    if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
+      *hr_ang = (lat > 0. ? PI - az : az);
    else
       {
       temp = cos_lat * cos( *dec);
-- 
2.43.0


From 041072ce16825f993f425952b921d8f003977816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 041/156] fix: converting alt/az to RA/dec left out the
 nutation that the reverse conversion applies

---
 alt_az.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 9464794..6dfe90a 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -116,12 +116,15 @@ void DLL_FUNC full_alt_az_to_ra_dec( DPT DLLPTR *ra_dec,
                               const DPT DLLPTR *alt_az,
                               const double jd_utc, const DPT DLLPTR *latlon)
 {
-   double hr_ang, ra;
+   double hr_ang, ra, nutation_lon;
+   const double cos_obliq_2000 = 0.917482062069181825744000384639406458043;
    DPT tmp;
 
    alt_az_to_ra_dec( alt_az->y, alt_az->x, &hr_ang,
                                          &tmp.y, latlon->y);
    ra = hr_ang + green_sidereal_time( jd_utc) + latlon->x;
+   nutation( (jd_utc - J2000) / 36525., &nutation_lon, NULL);
+   ra += cos_obliq_2000 * nutation_lon * (PI / 180.) / 3600.;
    tmp.x = fmod( -ra, TWO_PI);
    precess_pt( ra_dec, &tmp, 2000. + (jd_utc - J2000) / 365.25, 2000.);
 }
-- 
2.43.0


From d1cfe963ff5ed6b0d5928ff27e2ba54b9888521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 042/156] fix: orbits inclined near 90 degrees were turned to a
 wrong argument of perihelion

---
 astfuncs.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index cde9162..a51b195 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -93,27 +93,22 @@ to the direction of perihelion. */
 void setup_orbit_vectors( ELEMENTS DLLPTR *e)
 {
    const double sin_incl = sin( e->incl), cos_incl = cos( e->incl);
+   const double sin_node = sin( e->asc_node), cos_node = cos( e->asc_node);
+   const double sin_arg_per = sin( e->arg_per), cos_arg_per = cos( e->arg_per);
    double FAR *vec;
-   double vec_len;
    double up[3];
-   unsigned i;
 
    e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
    e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
                                        cos( e->arg_per));
    vec = e->perih_vec;
 
-   vec[0] = cos( e->lon_per) * cos_incl;
-   vec[1] = sin( e->lon_per) * cos_incl;
-   vec[2] = sin_incl * sin( e->lon_per - e->asc_node);
-   vec_len = sqrt( cos_incl * cos_incl + vec[2] * vec[2]);
-   if( cos_incl < 0.)      /* for retrograde cases, make sure */
-      vec_len *= -1.;      /* 'vec' has correct orientation   */
-   for( i = 0; i < 3; i++)
-      vec[i] /= vec_len;
+   vec[0] = cos_node * cos_arg_per - sin_node * sin_arg_per * cos_incl;
+   vec[1] = sin_node * cos_arg_per + cos_node * sin_arg_per * cos_incl;
+   vec[2] = sin_arg_per * sin_incl;
             /* 'up' is a vector perpendicular to the plane of the orbit */
-   up[0] =  sin( e->asc_node) * sin_incl;
-   up[1] = -cos( e->asc_node) * sin_incl;
+   up[0] =  sin_node * sin_incl;
+   up[1] = -cos_node * sin_incl;
    up[2] = cos_incl;
 
    vector_cross_product( e->sideways, up, vec);
-- 
2.43.0


From e1908f7b6d64080122c72d3c6b9232122e07086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:58 +0000
Subject: [PATCH 043/156] fix: parabolic orbits lost precision long before
 perihelion

---
 astfuncs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index a51b195..4126eee 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -280,8 +280,11 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
       {
       double g = elem->w0 * t * .5;
 
-      y = CUBE_ROOT( g + sqrt( g * g + 1.));
+               /* g + sqrt(g^2+1) would lose precision for negative g: */
+      y = CUBE_ROOT( fabs( g) + sqrt( g * g + 1.));
       true_anom = 2. * atan( y - 1. / y);
+      if( g < 0.)
+         true_anom = -true_anom;
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-- 
2.43.0


From 228f57b2943dcb8e21821f4ba87dbe3713fcb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 044/156] fix: parabolic elements computed at or near
 perihelion had no or an imprecise perihelion time

---
 classel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..837146a 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -261,9 +261,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
       {
       double tau;
 
-      tau = sqrt( dist / elem->q - 1.);
-      if( r_dot_v < 0.)
-         tau = -tau;
+      tau = r_dot_v / h0;
       elem->w0 = (3. / SQRT_2) / (elem->q * sqrt( elem->q / elem->gm));
 /*    elem->perih_time = t - tau * (tau * tau / 3. + 1) *                   */
 /*                                elem->q * sqrt( 2. * elem->q / elem->gm); */
-- 
2.43.0


From d0f8dd210272baa10ad6dd242723904d3e4ae3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 045/156] fix: argument of perihelion of an orbit in the
 reference plane lost its sign, and inclinations near 90 degrees their
 precision

---
 classel.cpp | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 837146a..95c085a 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -131,9 +131,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          elem->asc_node = 0.;  /* arbitrary choice h[0] = 0, h[1] = -epsilon */
       else
          elem->asc_node = atan2( h[0], -h[1]);
-      elem->incl = asine( n0 / h0);
-      if( h[2] < 0.)                   /* retrograde orbit */
-         elem->incl = PI - elem->incl;
+      elem->incl = atan2( n0, h[2]);
       }
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
@@ -187,30 +185,22 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( elem->sideways, h, e);
    if( ref & 1)
       {
-      double cos_arg_per;
+      double cos_arg_per, sin_arg_per;
 
       if( n0)
+         {
          cos_arg_per = (h[0] * e[1] - h[1] * e[0]) / n0;
-      else
-         cos_arg_per = e[0];
-      if( cos_arg_per < .7 && cos_arg_per > -.7)
-         elem->arg_per = acos( cos_arg_per);
+         sin_arg_per = (e[2] * n0 * n0 - (e[0] * h[0] + e[1] * h[1]) * h[2])
+                                            / (n0 * h0);
+         }
       else
          {
-         double sin_arg_per;
-
-         if( n0)
-            sin_arg_per = (e[0] * h[0] * h[2] + e[1] * h[1] * h[2] - e[2] * n0 * n0)
-                                            / (n0 * h0);
-         else
-            sin_arg_per = e[1] * h[2] / h0;
-
-         elem->arg_per = fabs( asin( sin_arg_per));
-         if( cos_arg_per < 0.)
-            elem->arg_per = PI - elem->arg_per;
+         cos_arg_per = e[0];
+         sin_arg_per = e[1] * h[2] / h0;
          }
-      if( e[2] < 0.)
-         elem->arg_per = PI + PI - elem->arg_per;
+      elem->arg_per = atan2( sin_arg_per, cos_arg_per);
+      if( elem->arg_per < 0.)
+         elem->arg_per += PI + PI;
       }
 
    if( inv_major_axis && elem->minor_to_major)
-- 
2.43.0


From 422705f21d2c17eb2a242598a9d1689fb9e656eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 046/156] fix: nearly circular orbits kept an out-of-plane part
 in the direction of perihelion

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 95c085a..8941673 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -136,7 +136,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
       e[i] = e[i] / elem->gm - r[i] / dist;
-   tval = dot_product( e, h) / h0;     /* "flatten" e vector into the rv */
+   tval = dot_product( e, h) / (h0 * h0);  /* "flatten" e vector into the rv */
    for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
       e[i] -= h[i] * tval;             /* above comments                 */
    ecc2 = dot_product( e, e);
-- 
2.43.0


From cfefebe9f256d01b8d73fb738bdef4da5f7a02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 047/156] fix: orbits circular to within rounding got a
 meaningless direction of perihelion

---
 classel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classel.cpp b/classel.cpp
index 8941673..3c28d55 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -142,6 +142,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    ecc2 = dot_product( e, e);
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
+   if( ecc2 < 1.e-32)      /* below roundoff,  the direction of e is noise */
+      ecc2 = 0.;
    elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
 
-- 
2.43.0


From f49cccfbf2e3018000c030890ed1e2101c06131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 048/156] fix: nearly parabolic orbits lost precision
 (positions ten percent off for e = 1 - 1e-15)

---
 astfuncs.cpp | 33 +++++++++++++++++++--------------
 classel.cpp  |  2 +-
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 4126eee..ae7bbdf 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -98,7 +98,7 @@ void setup_orbit_vectors( ELEMENTS DLLPTR *e)
    double FAR *vec;
    double up[3];
 
-   e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
+   e->minor_to_major = sqrt( fabs( (1. - e->ecc) * (1. + e->ecc)));
    e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
                                        cos( e->arg_per));
    vec = e->perih_vec;
@@ -274,7 +274,7 @@ double kepler( const double ecc, double mean_anom)
 void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
                                     double DLLPTR *loc, double DLLPTR *vel)
 {
-   double true_anom, r, x, y, r0;
+   double r, x, y, r0;
 
    if( elem->ecc == 1.)    /* parabolic */
       {
@@ -282,33 +282,38 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
 
                /* g + sqrt(g^2+1) would lose precision for negative g: */
       y = CUBE_ROOT( fabs( g) + sqrt( g * g + 1.));
-      true_anom = 2. * atan( y - 1. / y);
+      y -= 1. / y;            /* = tan( true_anom / 2) */
       if( g < 0.)
-         true_anom = -true_anom;
+         y = -y;
+      x = elem->q * (1. - y * y);
+      r = elem->q * (1. + y * y);
+      y *= 2. * elem->q;
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-      double ecc_anom;
+      const double ecc_anom = kepler( elem->ecc, elem->mean_anomaly);
+      const double axis = elem->q / fabs( 1. - elem->ecc);
+      double dist;
 
-      ecc_anom = kepler( elem->ecc, elem->mean_anomaly);
+         /* We'd lose precision for near-parabolic orbits if we used */
+         /* x = axis * (cos( ecc_anom) - ecc),  so rearrange a bit : */
       if( elem->ecc > 1.)     /* hyperbolic case */
          {
-         x = (elem->ecc - cosh( ecc_anom));
+         dist = sinh( ecc_anom * .5);
          y = sinh( ecc_anom);
          }
       else           /* elliptical case */
          {
-         x = (cos( ecc_anom) - elem->ecc);
+         dist = sin( ecc_anom * .5);
          y =  sin( ecc_anom);
          }
-      y *= elem->minor_to_major;
-      true_anom = atan2( y, x);
+      dist *= 2. * axis * dist;
+      y *= elem->minor_to_major * axis;
+      x = elem->q - dist;
+      r = elem->q + dist * elem->ecc;
       }
 
    r0 = elem->q * (1. + elem->ecc);
-   r = r0 / (1. + elem->ecc * cos( true_anom));
-   x = r * cos( true_anom);
-   y = r * sin( true_anom);
    if( loc)
       {
       loc[0] = elem->perih_vec[0] * x + elem->sideways[0] * y;
@@ -319,7 +324,7 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
    if( vel && (elem->angular_momentum != 0.))
       {
       double angular_component = elem->angular_momentum / (r * r);
-      double radial_component = elem->ecc * sin( true_anom) *
+      double radial_component = elem->ecc * (y / r) *
                                 elem->angular_momentum / (r * r0);
       double x1 = x * radial_component - y * angular_component;
       double y1 = y * radial_component + x * angular_component;
diff --git a/classel.cpp b/classel.cpp
index 3c28d55..18db320 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -144,8 +144,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
       ecc2 = 1.;                       /* parabolic orbits               */
    if( ecc2 < 1.e-32)      /* below roundoff,  the direction of e is noise */
       ecc2 = 0.;
-   elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
+   elem->minor_to_major = sqrt( fabs( (1. - ecc) * (1. + ecc)));
 
    if( !ecc)                     /* for purely circular orbits,  e is */
       {                          /* arbitrary in the orbit plane; choose */
-- 
2.43.0


From 9b85dbb18408c33ef22c10d480fc5575a127214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 049/156] fix: Kepler's equation for nearly parabolic orbits
 could stop on a lucky roundoff (relative errors of 1e-9)

---
 astfuncs.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index ae7bbdf..04d503b 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -157,7 +157,9 @@ E - e sin( E) = E - e( E - E^3/3! + E^5/5! - ...)
 quite rarely.  (I only encountered the problem because I had orbits
 that were supposed to be 'pure parabolic',  but due to roundoff,
 they had e = 1+/- epsilon,  with epsilon _very_ small.)  So 'near_parabolic'
-is only called if we've gone seven iterations without converging. */
+is called if the eccentricity is close to one and the anomaly is small
+(where a lucky roundoff could otherwise look like convergence),  or if
+we've gone seven iterations without converging. */
 
 static double near_parabolic( const double ecc_anom, const double e)
 {
@@ -166,7 +168,7 @@ static double near_parabolic( const double ecc_anom, const double e)
    double rval = (1. - e) * ecc_anom - term;
    unsigned n = 4;
 
-   while( fabs( term) > 1e-15)
+   while( fabs( term) > 1e-17 * fabs( rval))
       {
       term *= anom2 / (double)(n * (n + 1));
       rval -= term;
@@ -188,6 +190,7 @@ double kepler( const double ecc, double mean_anom)
    double delta_curr = 1.;
    bool is_negative = false;
    unsigned n_iter = 0;
+   const bool is_near_parabolic = (fabs( 1. - ecc) < .01);
 
    if( !mean_anom)
       return( 0.);
@@ -249,7 +252,7 @@ double kepler( const double ecc, double mean_anom)
    if( ecc < 1.)
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS)
+         if( n_iter++ > MAX_ITERATIONS || (is_near_parabolic && curr < 1.))
             err = near_parabolic( curr, ecc) - mean_anom;
          else
             err = curr - ecc * sin( curr) - mean_anom;
@@ -260,12 +263,13 @@ double kepler( const double ecc, double mean_anom)
    else
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS && ecc < 1.01)
+         if( is_near_parabolic && (n_iter > MAX_ITERATIONS || curr < 1.))
             err = -near_parabolic( curr, ecc) - mean_anom;
          else
             err = ecc * sinh( curr) - curr - mean_anom;
          delta_curr = -err / (ecc * cosh( curr) - 1.);
          curr += delta_curr;
+         n_iter++;
          assert( n_iter < 20);
          }
    return( is_negative ? offset - curr : offset + curr);
-- 
2.43.0


From 3a84610064a7df027ace9bfde893db884a20daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 050/156] fix: slope used in solving Kepler's equation for
 nearly parabolic orbits was mostly roundoff

---
 astfuncs.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 04d503b..056c6f7 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -186,7 +186,7 @@ go into excruciating detail as to how it's done below. */
 
 double kepler( const double ecc, double mean_anom)
 {
-   double curr, err, thresh, offset = 0.;
+   double curr, err, thresh, z, offset = 0.;
    double delta_curr = 1.;
    bool is_negative = false;
    unsigned n_iter = 0;
@@ -256,7 +256,8 @@ double kepler( const double ecc, double mean_anom)
             err = near_parabolic( curr, ecc) - mean_anom;
          else
             err = curr - ecc * sin( curr) - mean_anom;
-         delta_curr = -err / (1. - ecc * cos( curr));
+         z = sin( curr * .5);             /* 1 - ecc * cos( curr) suffers */
+         delta_curr = -err / (1. - ecc + 2. * ecc * z * z);  /* roundoff  */
          curr += delta_curr;
          assert( n_iter < 20);
          }
@@ -267,7 +268,8 @@ double kepler( const double ecc, double mean_anom)
             err = -near_parabolic( curr, ecc) - mean_anom;
          else
             err = ecc * sinh( curr) - curr - mean_anom;
-         delta_curr = -err / (ecc * cosh( curr) - 1.);
+         z = sinh( curr * .5);
+         delta_curr = -err / (ecc - 1. + 2. * ecc * z * z);
          curr += delta_curr;
          n_iter++;
          assert( n_iter < 20);
-- 
2.43.0


From fc6a7757bf5013acd1c051c449ab93c6cc1740d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 051/156] fix: refraction integral was NaN at the zenith

---
 refract4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refract4.cpp b/refract4.cpp
index 3b4abf4..7cb5077 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -143,6 +143,8 @@ static double total_refraction( const REFRACT *ref,
    const double integration_tolerance = .0001;
    const int max_recursion_depth = 20;
 
+   if( l1->z == l2->z)     /* nothing to integrate;  happens at the zenith */
+      return( 0.);
    mid.z = (l1->z + l2->z) * .5;
    mid.r = (l1->r + l2->r) * .5;
    do
-- 
2.43.0


From 3b01f3bf94ccf7e26049b7449a6d7e7fb40f52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:52 +0000
Subject: [PATCH 052/156] fix: EOP files with a missing day gave wrong values, 
 and the last day was wrong if no blank line followed it

---
 eop_prec.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..b72529f 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -125,7 +125,7 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
          rval = EOP_FILE_WRONG_FORMAT;
       else
          {
-         int i;
+         int i, last_mjd = 0;
          double initial_td_minus_utc;
 
          eop_jd0 = atof( buff + 7) + 2400000.5;
@@ -138,10 +138,12 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_ALLOC_FAILED;
          i = eop_usable = eop_usable_nutation = 0;
          while( !rval && i < eop_size && fgets( buff, sizeof( buff), ifile)
-                      && buff[16] != ' ' && is_valid_eop_line( buff))
+                      && buff[16] != ' ' && is_valid_eop_line( buff)
+                      && (!i || atoi( buff + 7) == last_mjd + 1))
             {
             double *tptr = eop_data + i;
 
+            last_mjd = atoi( buff + 7);
             *tptr = atof( buff + 18) * arcsec_to_radians;      /* Polar motion X, arcsec */
             tptr += eop_size;
             *tptr = atof( buff + 37) * arcsec_to_radians;      /* Polar motion Y, arcsec */
@@ -170,8 +172,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last day read */
+            rval = last_mjd;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0


From d6a74cc95a4ca1b221852d3d4f1662636a6acf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 053/156] fix: minimization failed an assert when the fitted
 curve pointed to a point already known or to none

---
 brentmin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brentmin.cpp b/brentmin.cpp
index f456e31..9aa80d4 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -212,6 +212,10 @@ double brent_min_next( brent_min_t *b)
          else if( rval > b->xmax - tol)
             rval = b->xmax - tol;
          }
+            /* The fit may also suggest a point we already have,  or none */
+            /* at all (a NaN,  if the points to be fitted are level) :    */
+      if( !(rval > b->xmin && rval < b->xmax) || rval == b->x[0])
+         b->step_type = STEP_TYPE_GOLDEN;
       if( b->n_iterations > 30 && (b->n_iterations & 1))
          b->step_type = STEP_TYPE_GOLDEN;
       }
-- 
2.43.0


From 72add822db43411d60765fb0e3a3dd38ff217ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:32 +0000
Subject: [PATCH 054/156] fix: golden section steps of the minimization shrank
 to nothing after a few successes,  and it never converged

---
 brentmin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/brentmin.cpp b/brentmin.cpp
index 9aa80d4..cc03e8a 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -238,8 +238,8 @@ int brent_min_add( brent_min_t *b, const double next_y)
          b->xmax = b->x[0];
       else
          b->xmin = b->x[0];
-      if( b->step_type == STEP_TYPE_GOLDEN)
-         b->gold_ratio = (1. + b->gold_ratio) / 2.;
+      if( b->step_type == STEP_TYPE_GOLDEN)     /* minimum is farther out */
+         b->gold_ratio = (PHI + b->gold_ratio) / 2.;
       }
    else                       /* no new minimum,  but the brackets can */
       {                       /* still be moved in */
@@ -247,8 +247,8 @@ int brent_min_add( brent_min_t *b, const double next_y)
          b->xmin = b->next_x;
       else
          b->xmax = b->next_x;
-      if( b->step_type == STEP_TYPE_GOLDEN)
-         b->gold_ratio = (PHI + b->gold_ratio) / 2.;
+      if( b->step_type == STEP_TYPE_GOLDEN)     /* try a smaller step */
+         b->gold_ratio = (1. + b->gold_ratio) / 2.;
       }
    b->n_iterations++;
    while( idx && next_y <= b->y[idx - 1])
-- 
2.43.0


From 6a86b11e41bd7140ec23f9e8063358e8609bd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 055/156] fix: derivatives from Lagrange interpolation were
 mostly roundoff very near a grid point

---
 spline.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/spline.cpp b/spline.cpp
index 6143e68..9532cc8 100644
--- a/spline.cpp
+++ b/spline.cpp
@@ -114,7 +114,7 @@ double cubic_spline_interpolate_within_table(
 /* One can pass a NULL 'deriv' if one doesn't actually need the first
 derivative of the interpolated polynomial.  For a non-NULL value,  the
 usual method for computing that derivative breaks down if you're exactly
-on a grid point (divisions by zero occur).  In such cases,  numerical
+on a grid point (divisions by zero occur) and loses precision near one.  In such cases,  numerical
 differentiation is used instead.       */
 
 double lagrange_interpolate_within_table( const double *table,
@@ -123,23 +123,22 @@ double lagrange_interpolate_within_table( const double *table,
 {
    int idx = (int)floor( x - (double)n_pts / 2.) + 1;
    double t = 1., c = 1., rval = 0., sum_recips = 0., y0;
-   int i = (int)( x + .5);
-
-   if( x == (double)i && i >= 0 && i < n_entries)
-      {              /* we're exactly on a grid point */
-      if( deriv)
-         {
-         const double epsilon = 1e-5;      /* numerically compute deriv */
-         double y1, y2;
-
-         y1 = lagrange_interpolate_within_table( table, n_entries, x - epsilon,
-                              n_pts, NULL);
-         y2 = lagrange_interpolate_within_table( table, n_entries, x + epsilon,
-                              n_pts, NULL);
-         *deriv = (y2 - y1) / (2. * epsilon);
-         }
-      return( table[i]);
+   int i = (int)floor( x + .5);
+
+   if( deriv && fabs( x - (double)i) < 1e-7 && i >= 0 && i < n_entries)
+      {              /* on or nearly on a grid point */
+      const double epsilon = 1e-5;      /* numerically compute deriv */
+      double y1, y2;
+
+      y1 = lagrange_interpolate_within_table( table, n_entries, x - epsilon,
+                           n_pts, NULL);
+      y2 = lagrange_interpolate_within_table( table, n_entries, x + epsilon,
+                           n_pts, NULL);
+      *deriv = (y2 - y1) / (2. * epsilon);
+      deriv = NULL;
       }
+   if( x == (double)i && i >= 0 && i < n_entries)
+      return( table[i]);     /* we're exactly on a grid point */
    if( idx < 0)      /* extrapolate from front of table */
       idx = 0;
    else if( idx > n_entries - n_pts)
-- 
2.43.0


From ed686e6aad84248b873a1b7596ec6108341f9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:48 +0000
Subject: [PATCH 056/156] fix: height of a point exactly at a pole was wrong by
 the difference between the equatorial and polar radii

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 2244a66..e808565 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From 2da07848f52f8722de13cd3c0a68c8f25eaa9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 057/156] fix: nearest point of a circle was NaN for points on
 its axis

---
 mpc_code.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index e808565..ef7d379 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -172,6 +172,13 @@ double point_to_ellipse( const double a, const double b,
    else
       {
       const double c_squared = a * a - b * b;
+
+      if( c_squared == 0. && y == 0.)   /* on a circle's axis;  the method */
+         {                              /* below would give 0/0 */
+         if( dist)
+            *dist = fx - a;
+         return( x < 0. ? PI : 0.);
+         }
       const double e = (b * fy - c_squared) / (a * fx);      /* 4.22-12/6 */
       const double f = (b * fy + c_squared) / (a * fx);      /* 4.22-13/7 */
       const double p = (4. / 3.) * (e * f + 1.);             /* 4.22-14/9 */
-- 
2.43.0


From 32090e64c90f8970f2bf52b6b180246d3b004b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:52 +0000
Subject: [PATCH 058/156] fix: axis ratio for a negative planet index was read
 from outside the table

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index ef7d379..3f2eebc 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -94,7 +94,7 @@ const double polar_radii[N_POLAR_RADII] = {
 
 double planet_axis_ratio( const int planet_idx)
 {
-   return( planet_idx >= N_POLAR_RADII ?
+   return( planet_idx < 0 || planet_idx >= N_POLAR_RADII ?
             1 : polar_radii[planet_idx] / equatorial_radii[planet_idx]);
 }
 
-- 
2.43.0


From 760bd6b4e1a9cd6012a7e56d88915c2207b27635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 059/156] fix: nearest point of an almost circular ellipse lost
 precision for points near its major axis

---
 mpc_code.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 3f2eebc..e41ade1 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -172,13 +172,6 @@ double point_to_ellipse( const double a, const double b,
    else
       {
       const double c_squared = a * a - b * b;
-
-      if( c_squared == 0. && y == 0.)   /* on a circle's axis;  the method */
-         {                              /* below would give 0/0 */
-         if( dist)
-            *dist = fx - a;
-         return( x < 0. ? PI : 0.);
-         }
       const double e = (b * fy - c_squared) / (a * fx);      /* 4.22-12/6 */
       const double f = (b * fy + c_squared) / (a * fx);      /* 4.22-13/7 */
       const double p = (4. / 3.) * (e * f + 1.);             /* 4.22-14/9 */
@@ -186,6 +179,17 @@ double point_to_ellipse( const double a, const double b,
       const double d = p * p * p + q * q;                    /* 4.22-16/12 */
       double v, g, t;
 
+      if( fabs( e) < 1e-4 && fabs( f) < 1e-4)   /* (nearly) a circle,  with the   */
+         {                                      /* point near the major axis; the */
+         t = b * fy / (a * fx - c_squared);     /* method below loses all its     */
+         lat = atan2( a * t, b);                /* precision,  but this suffices  */
+         if( dist)
+            *dist = (fx - a / sqrt( 1. + t * t)) * cos( lat)
+                  + (fy - b * t / sqrt( 1. + t * t)) * sin( lat);
+         if( x < 0.)
+            lat = PI - lat;
+         return( y < 0. ? -lat : lat);
+         }
       if( d >= 0.)
          {
          const double sqrt_d = sqrt( d);
-- 
2.43.0


From fec5e3551e00439eac0daeba8bcb1b8de18e6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:28 +0000
Subject: [PATCH 060/156] fix: nearest point of an ellipse lost precision for
 points very near its minor axis

---
 mpc_code.cpp | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index e41ade1..41e3430 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -179,32 +179,35 @@ double point_to_ellipse( const double a, const double b,
       const double d = p * p * p + q * q;                    /* 4.22-16/12 */
       double v, g, t;
 
-      if( fabs( e) < 1e-4 && fabs( f) < 1e-4)   /* (nearly) a circle,  with the   */
-         {                                      /* point near the major axis; the */
-         t = b * fy / (a * fx - c_squared);     /* method below loses all its     */
-         lat = atan2( a * t, b);                /* precision,  but this suffices  */
-         if( dist)
-            *dist = (fx - a / sqrt( 1. + t * t)) * cos( lat)
-                  + (fy - b * t / sqrt( 1. + t * t)) * sin( lat);
-         if( x < 0.)
-            lat = PI - lat;
-         return( y < 0. ? -lat : lat);
-         }
-      if( d >= 0.)
+            /* The method loses all its precision close to the minor axis,  */
+            /* and close to the major axis of a (nearly) circular ellipse.  */
+            /* In both cases,  a first-order solution is good enough.       */
+      if( f > 1e+5)
+         t = .5 / f;
+      else if( fabs( e) < 1e-4 && fabs( f) < 1e-4)
          {
-         const double sqrt_d = sqrt( d);
+         const double tan_u = b * fy / (a * fx - c_squared);
 
-         v = cbrt( sqrt_d - q) - cbrt( sqrt_d + q);         /* 4.22-17/11a */
+         t = sqrt( 1. + tan_u * tan_u) - tan_u;
          }
       else
          {
-         const double sqp = sqrt( -p);
-         const double temp_ang = acos( q / (sqp * p));
+         if( d >= 0.)
+            {
+            const double sqrt_d = sqrt( d);
 
-         v = 2. * sqp * cos( temp_ang / 3.);                      /* 11b */
+            v = cbrt( sqrt_d - q) - cbrt( sqrt_d + q);      /* 4.22-17/11a */
+            }
+         else
+            {
+            const double sqp = sqrt( -p);
+            const double temp_ang = acos( q / (sqp * p));
+
+            v = 2. * sqp * cos( temp_ang / 3.);                   /* 11b */
+            }
+         g = (sqrt( e * e + v) + e) * .5;                  /* 4.22-18/14 */
+         t = sqrt( g * g + (f - v * g) / (2. * g - e)) - g;   /* 4.22-19/13 */
          }
-      g = (sqrt( e * e + v) + e) * .5;                     /* 4.22-18/14 */
-      t = sqrt( g * g + (f - v * g) / (2. * g - e)) - g;   /* 4.22-19/13 */
       lat = atan2( a * (1. - t * t), 2. * b * t);          /* 4.22-20/15a */
       if( dist)                                            /* 4.22-21/15b */
          *dist = (fx - a * t) * cos( lat) + (fy - b) * sin( lat);
-- 
2.43.0


From 009aabfa35871d002e1c35ed5bb289e1ca7c9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:06 +0000
Subject: [PATCH 061/156] fix: nearest point of an ellipse lost precision where
 the cubic in its solution is nearly degenerate

---
 mpc_code.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 41e3430..a74db89 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -194,9 +194,10 @@ double point_to_ellipse( const double a, const double b,
          {
          if( d >= 0.)
             {
-            const double sqrt_d = sqrt( d);
+            const double w = cbrt( sqrt( d) - q);
 
-            v = cbrt( sqrt_d - q) - cbrt( sqrt_d + q);      /* 4.22-17/11a */
+                     /* 4.22-17/11a,  v = cbrt( sqrt_d - q) - cbrt( sqrt_d + q), */
+            v = (w ? w - p / w : 0.);      /* without subtracting nearly equal numbers */
             }
          else
             {
-- 
2.43.0


From d764e7ee65fa8f7db07f096b3c9bb70008869a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:35 +0000
Subject: [PATCH 062/156] fix: parallax constants for a rovers line on the
 equator or prime meridian

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index a74db89..ffa5a6b 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -361,7 +361,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon || cinfo->alt)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From 3dd898eec9fca3d10310180b594e8578b8e0f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 063/156] fix: NaN parallax constants for a rovers line on a
 body of unknown size

---
 mpc_code.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index ffa5a6b..2d3da47 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -318,7 +318,8 @@ static void _set_parallax_constants( mpc_code_t *cinfo)
    const double major = planet_radius_in_meters( cinfo->planet);
    const double minor = major * planet_axis_ratio( cinfo->planet);
 
-   lat_alt_to_parallax( cinfo->lat, cinfo->alt,
+   if( major)        /* can't do it for objects of unknown size */
+      lat_alt_to_parallax( cinfo->lat, cinfo->alt,
                         &cinfo->rho_cos_phi, &cinfo->rho_sin_phi,
                         major, minor);
 }
-- 
2.43.0


From 873010f4a48e7b78d4ebce3627272c54c806211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 064/156] fix: name of a short rovers line pointed past its end

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 2d3da47..08e5a7c 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -353,7 +353,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                }
             cinfo->lon *= PI / 180.;
             cinfo->lat *= PI / 180.;
-            cinfo->name = buff + 47;
+            cinfo->name = (strlen( buff) > 47 ? buff + 47 : "");
             cinfo->format = MPC_CODE_LAT_LON_ALT;
             if( tptr)                     /* non-earth location */
                {
-- 
2.43.0


From f246a83683bc5d8f2d66a3575848981642cf5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:41 +0000
Subject: [PATCH 065/156] fix: get_mpc_code_info read past the end of text
 shorter than four bytes

---
 mpc_code.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 08e5a7c..89cfb93 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -395,11 +395,11 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
       else
          rval = -1;
       }
-   memcpy( cinfo->code, buff, 4);
-   if( buff[3] == ' ')        /* standard 3-character code */
-      cinfo->code[3] = '\0';
-   else                       /* 'extended' 4-character code */
-      cinfo->code[4] = '\0';
+   for( i = 0; i < 4 && buff[i]; i++)
+      cinfo->code[i] = buff[i];
+   if( i == 4 && buff[3] == ' ')    /* standard 3-character code */
+      i = 3;                  /* otherwise,  'extended' 4-character code */
+   cinfo->code[i] = '\0';
    if( rval != -1)
       {
       cinfo->planet = rval;
-- 
2.43.0


From ed762db8606530dc34271729cdaac71951a88b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:43 +0000
Subject: [PATCH 066/156] fix: an angle at the end of text, without a compass
 sign, was read past its end

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 89cfb93..a0b40f4 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -583,7 +583,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From d07a325f121651b78829929267de282c93d9a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:45 +0000
Subject: [PATCH 067/156] fix: a blank or short line in geo_rect.txt was mixed
 with remains of the previous one

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index a0b40f4..60f91f5 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -422,7 +422,7 @@ int extract_region_data_for_lat_lon( FILE *ifile, char *buff,
 
    *buff = '\0';
    while( !*buff && fgets( tbuff, sizeof( tbuff), ifile))
-      if( *tbuff != '#')
+      if( *tbuff != '#' && strlen( tbuff) > 40)
          {
          double d_lon1 = quick_atof( tbuff)      - lon_in_degrees;
          double d_lon2 = quick_atof( tbuff + 20) - lon_in_degrees;
-- 
2.43.0


From 2428372a24f5f0f6773242d54d90885dd2df9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 068/156] fix: region names were cut at the first non-ASCII
 character

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 60f91f5..91ed129 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -443,7 +443,7 @@ int extract_region_data_for_lat_lon( FILE *ifile, char *buff,
             if( d_lat1 * d_lat2 < 0.)
                {
                strcpy( buff, tbuff + 40);
-               while( buff[i] >= ' ')
+               while( (unsigned char)buff[i] >= ' ')
                   i++;
                buff[i] = '\0';   /* remove trailing CR/LF */
                }
-- 
2.43.0


From 9d01eded26b5f301865125973c9221bf6911a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:45 +0000
Subject: [PATCH 069/156] fix: extract_sof_data read past the end of a line
 shorter than its header

---
 sof.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sof.cpp b/sof.cpp
index ab038b9..d43b52c 100644
--- a/sof.cpp
+++ b/sof.cpp
@@ -85,17 +85,19 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
    if( extra_info)
       for( size_t i = 0; i < 4; i++)
          extra_info[i] = 0.;
-   while( *header >= ' ')
+   while( *header >= ' ' && *buff)
       {
-      size_t i = 0;
+      size_t i = 0, len = 0;
       char tbuff[80];
 
       while( header[i] >= ' ' && header[i] != '|')
          i++;
       if( i < 2 || i >= sizeof( tbuff))
          return( -1);
-      memcpy( tbuff, buff, i);
-      tbuff[i] = '\0';
+      while( len < i && buff[len])     /* last field may be cut short */
+         len++;
+      memcpy( tbuff, buff, len);
+      tbuff[len] = '\0';
       if( header[1] == ' ')
          {
          switch( header[0])
@@ -180,10 +182,14 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
          }
       if( !memcmp( header, "rms", 3) && extra_info)
          extra_info[3] = atof( tbuff);
+      buff += len;
       if( header[i] == '|')
+         {
          i++;
+         if( *buff)
+            buff++;
+         }
       header += i;
-      buff += i;
       }
    if( (fields_found & MIN_FIELDS_NEEDED) == MIN_FIELDS_NEEDED)
       {
-- 
2.43.0


From 294719052204a5049f1d464bc89da95203e62842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:22 +0000
Subject: [PATCH 070/156] fix: mpc2sof wrote comets past the end of its buffer
 when asteroids were few

---
 mpc2sof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 4c72a89..056df81 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -211,8 +211,10 @@ int main( const int argc, const char **argv)
             strcat( tbuff, "           ");    /* rms, number obs */
             strcat( tbuff, "                                     \n");     /* Tlast, perts, H, G */
             assert( strlen( tbuff) == reclen);
-            memcpy( obuff + n_out * reclen, tbuff, reclen);
             n_out++;
+            if( IS_POWER_OF_TWO( n_out))
+               obuff = (char *)realloc( obuff, n_out * 2 * reclen);
+            memcpy( obuff + (n_out - 1) * reclen, tbuff, reclen);
             }
       fclose( ifile);
       }
-- 
2.43.0


From 9412907d6fa81f7d6496262ae0f284af4f593207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:16 +0000
Subject: [PATCH 071/156] fix: url-encoded text with lowercase hex digits was
 refused

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..a0c4a21 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,6 +129,8 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
                return( -1);         /* not supposed to happen */
             }
-- 
2.43.0


From f10c8e8874644dee2e2b0b567412dc336d09f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:18 +0000
Subject: [PATCH 072/156] fix: url-encoded text was cut at the first byte over
 127

---
 cgi_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index a0c4a21..fd17631 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -112,7 +112,7 @@ static int get_urlencoded_piece( const char **idata,
    const char *tptr = *idata;
 
    max_buff--;
-   while( (c = *tptr++) > 13 && max_buff-- && c != end_char)
+   while( (c = (unsigned char)*tptr++) > 13 && max_buff-- && c != end_char)
       {
       if( c == '+')
          c = ' ';
-- 
2.43.0


From fe8c3cb7c9b2b667e69468aa5dab9f3e8401b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:19 +0000
Subject: [PATCH 073/156] fix: a value with a malformed escape was accepted,
 unterminated

---
 cgi_func.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index fd17631..359b1b3 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -132,7 +132,10 @@ static int get_urlencoded_piece( const char **idata,
             else if( c1 >= 'a' && c1 <= 'f')
                c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
+               {
+               *buff = '\0';
                return( -1);         /* not supposed to happen */
+               }
             }
          }
       *buff++ = (char)c;
@@ -153,6 +156,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c == -1)
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From d7d33131c5d273d27d081a3aa8228546ed1345e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:21 +0000
Subject: [PATCH 074/156] fix: a long field name in multipart data overran its
 buffer

---
 cgi_func.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 359b1b3..4c500c6 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -162,6 +162,7 @@ int get_urlencoded_form_data( const char **idata,
 }
 
 #define OVERRUN         -3
+#define MAX_FIELD       30
 
 int get_multipart_form_data( const char *boundary, char *field,
                 char *buff, char *filename, const size_t max_len)
@@ -182,6 +183,8 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
+      if( strlen( tptr + 6) >= MAX_FIELD)
+         return( OVERRUN);
       strcpy( field, tptr + 6);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
@@ -284,7 +287,7 @@ int initialize_cgi_reading( void)
 int get_cgi_data( char *field, char *data, char *filename, const size_t max_data)
 {
    int rval;
-   const size_t max_field = 30;
+   const size_t max_field = MAX_FIELD;
 
    switch( method)
       {
-- 
2.43.0


From d6377565212fc25b1f1636e08876a90367fa9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:19 +0000
Subject: [PATCH 075/156] fix: boundary and content type comparisons read past
 the end of short text

---
 cgi_func.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 4c500c6..e027803 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -198,7 +198,7 @@ int get_multipart_form_data( const char *boundary, char *field,
             return( OVERRUN);
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
+                 && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
          }
       }
@@ -260,9 +260,9 @@ int initialize_cgi_reading( void)
 
       if( !eptr)
          return( -1);
-      if( !memcmp( eptr, "application/x-www-form-urlencoded", 33))
+      if( !strncmp( eptr, "application/x-www-form-urlencoded", 33))
          method = METHOD_PUT_URL;
-      else if( !memcmp( eptr, "multipart/form-data;", 20))
+      else if( !strncmp( eptr, "multipart/form-data;", 20))
          method = METHOD_PUT_MULTIPART;
       else
          return( -2);
-- 
2.43.0


From bf4fe7db2609ddde0b978c65a5b57ff13f180c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:21 +0000
Subject: [PATCH 076/156] fix: multipart data too long for the buffer was cut
 and its remainder taken for further fields

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index e027803..20e1ea0 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -200,6 +200,8 @@ int get_multipart_form_data( const char *boundary, char *field,
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
                  && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
+         if( bytes_read >= max_len - 1)      /* data is too long */
+            return( OVERRUN);
          }
       }
    else
-- 
2.43.0


From 17b1241532c25953cac8b806cd7a2c1726ea200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:22 +0000
Subject: [PATCH 077/156] fix: the blank line ending the header of an uploaded
 file was made part of its contents

---
 cgi_func.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 20e1ea0..fd7829a 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -192,10 +192,15 @@ int get_multipart_form_data( const char *boundary, char *field,
          *endptr = '\0';
          strcpy( filename, filename_ptr + 10);
          }
-      if( fgets( buff, (int)max_len, stdin))
+      do                   /* skip rest of header,  through the blank line */
          {
-         if( strlen( buff) == max_len - 1)
+         tptr = fgets( buff, (int)max_len, stdin);
+         if( tptr && strlen( buff) == max_len - 1)
             return( OVERRUN);
+         }
+         while( tptr && *buff != 10 && *buff != 13);
+      if( tptr)
+         {
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
                  && strncmp( buff + bytes_read, boundary, blen))
-- 
2.43.0


From 87e2da7c250aa6487d8bf46a1e92da3b24cddf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:24 +0000
Subject: [PATCH 078/156] fix: freeing form data twice, or after a later GET
 request, freed memory already freed

---
 cgi_func.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index fd7829a..e433818 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -323,4 +323,8 @@ void free_cgi_data( void)
 {
    if( ibuff)
       free( ibuff);
+   if( boundary)
+      free( boundary);
+   ibuff = boundary = NULL;
+   method = 0;
 }
-- 
2.43.0


From 537c737df4680e925ad06384b8b6d6bfb4763a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 079/156] fix: constellations at negative right ascensions were
 those of a place up to a second away

---
 conbound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conbound.c b/conbound.c
index d94f729..604af48 100644
--- a/conbound.c
+++ b/conbound.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <stdint.h>
+#include <math.h>
 #include "watdefs.h"
 #include "afuncs.h"
 
@@ -377,7 +378,7 @@ int DLL_FUNC constell_from_ra_dec( const double ra_degrees_1875,
                                    const double dec_degrees_1875,
                                    char DLLPTR *constell_name)
 {
-   const int32_t ra = ((int32_t)(ra_degrees_1875 * 240.) + 864000) % 86400;
+   const int32_t ra = ((int32_t)floor( ra_degrees_1875 * 240.) + 864000) % 86400;
    const int16_t spd = (int16_t)( (dec_degrees_1875 + 90.) * 60.);
    int idx = -1, step = 512;
    int rval = -1;
-- 
2.43.0


From 462935bf97033f61b35856b02161870a5d6c892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:43 +0000
Subject: [PATCH 080/156] fix: decipher_var_desig read past the end of empty
 text

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 1286988..fc842bb 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -219,7 +219,7 @@ int DLL_FUNC decipher_var_desig( const char DLLPTR *desig)
    int len, first,  second, rval = -2;
 
    first = toupper( desig[0]);
-   second = toupper( desig[1]);
+   second = (*desig ? toupper( desig[1]) : 0);
    for( len = 0; desig[len] && desig[len] != ' '; len++)
       ;
    switch( len)
-- 
2.43.0


From cc827e289cde0152fc8982584c212e65fbd4b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 081/156] fix: a Unicode minus sign cut short the right
 ascension of the pole of Mars

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index c463622..eb85ced 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -141,7 +141,7 @@ Obj: 4002 # Deimos (s)
 
 Obj: 4 # Mars
    r=3396.19,3376.20
-   a0= 317.269202 − 0.10927547T + 0.419057 sin M11
+   a0= 317.269202 - 0.10927547T + 0.419057 sin M11
    d0= 54.432516 - 0.05827105T + 1.591274 cos M12
    W= 176.049863 + 350.891982443297d + 0.584542 sin M13   # (c) See 2018 Jul 17 comments
 
-- 
2.43.0


From 0c6e0fa2882537df3ec756be89c22b9dcf700fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:12 +0000
Subject: [PATCH 082/156] fix: planet_radii set nothing and claimed success if
 it was the first to load the coefficients

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..24380d4 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -122,7 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From 1953a0b276ac5e4f4af760947ed03e475a2f58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 083/156] fix: the last object in cospar.txt, (25143) Itokawa,
 could not be found

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 24380d4..8398e7b 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -264,6 +264,8 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       }
+   if( curr_obj_from_file == object_number)     /* last object in file */
+      done = 1;
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From 824e64dc2e2fe329ec23fb1686a0fe62ac768011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:42 +0000
Subject: [PATCH 084/156] fix: orientations and rates stayed as they were after
 another cospar.txt was loaded, or one first found missing

---
 cospar.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 8398e7b..f26b26c 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -33,6 +33,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #define PLANET_SELECTED          -99998
 
 const char *cospar_filename = "cospar.txt";
+static int cospar_load_count = 0;   /* incremented when data is freed or loaded */
 
 /* Mostly complete code to compute COSPAR planetary,  satellite,  and
 asteroid orientations using data extracted from 'cospar.txt'.  Thus far,
@@ -70,6 +71,7 @@ static int get_cospar_data_from_text_file( int object_number,
       if( cospar_text)
          free( cospar_text);
       cospar_text = NULL;
+      cospar_load_count++;
       return( 0);
       }
 
@@ -121,6 +123,7 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       cospar_text[line] = NULL;
+      cospar_load_count++;
       fclose( ifile);
       if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
@@ -304,16 +307,18 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_planet_no = -99, prev_system_no, prev_load_count;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_planet_no || system_no != prev_system_no
+                  || prev_load_count != cospar_load_count)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
 
       if( rval)
          omega = 0.;
+      prev_load_count = (rval ? -1 : cospar_load_count);   /* -1 = try again */
       prev_planet_no = planet_no;
       prev_system_no = system_no;
       }
@@ -351,6 +356,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 {
    static int prev_planet_no = NO_OBJECT_SELECTED;
    static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
+   static int prev_load_count;
    static double prev_jd = -1.;
    static double prev_matrix[9];
    int i, rval;
@@ -358,7 +364,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    double pole_ra, pole_dec, omega, tdt;
 
    if( planet_no == prev_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
+                  && jd == prev_jd && prev_load_count == cospar_load_count)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
       return( prev_rval);
@@ -381,6 +387,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
       for( i = 3; i < 6; i++)
          matrix[i] = -matrix[i];
       memcpy( prev_matrix, matrix, 9 * sizeof( double));
+      prev_load_count = cospar_load_count;
       prev_rval = 0;
       return( 0);
       }
@@ -398,6 +405,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
       for( i = 3; i < 6; i++)
          matrix[i] *= -1.;
    memcpy( prev_matrix, matrix, 9 * sizeof( double));
+   prev_load_count = (rval ? -1 : cospar_load_count);    /* -1 = try again */
    prev_rval = rval;
    return( rval);
 }
-- 
2.43.0


From ef59faa6ddfbad572536b994bf0ed83e0c1e280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:44 +0000
Subject: [PATCH 085/156] fix: with no cospar.txt, orientations and radii were
 made from uninitialised variables

---
 cospar.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index f26b26c..62f768f 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -51,6 +51,15 @@ that data.
 triaxial ellipsoid).  If 'radii' is non-NULL,  one,  two,  or three
 numbers will be set accordingly,  with the remainder set to zero. */
 
+static void set_unknown_object( const int object_number, const double d,
+         double *pole_ra, double *pole_dec, double *omega)
+{
+   if( pole_ra && pole_dec)
+      *pole_ra = *pole_dec = (double)object_number * 20.;
+   if( omega)
+      *omega = d * 360. / 1.3;   /* rotation once every 1.3 days */
+}
+
 static int get_cospar_data_from_text_file( int object_number,
          const int system_number, const double jde,
          double *pole_ra, double *pole_dec, double *omega,
@@ -75,13 +84,20 @@ static int get_cospar_data_from_text_file( int object_number,
       return( 0);
       }
 
+   if( is_retrograde)
+      *is_retrograde = false;
+   if( radii)
+      radii[0] = radii[1] = radii[2] = 0.;
    if( !cospar_text)       /* must load file */
       {
       FILE *ifile = fopen( cospar_filename, "rb");
       int pass;
 
       if( !ifile)
+         {
+         set_unknown_object( object_number, d, pole_ra, pole_dec, omega);
          return( -1);
+         }
                   /* make two passes through file:  one to count lines */
                   /* and file size, another to load the file           */
       for( pass = 0; pass < 2; pass++)
@@ -128,9 +144,6 @@ static int get_cospar_data_from_text_file( int object_number,
       if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
-   *is_retrograde = false;
-   if( radii)
-      radii[0] = radii[1] = radii[2] = 0.;
    for( line = 0; cospar_text[line] && !done && !err; line++)
       {
       char *tptr = cospar_text[line];
@@ -272,10 +285,7 @@ static int get_cospar_data_from_text_file( int object_number,
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-         if( pole_ra && pole_dec)
-            *pole_ra = *pole_dec = (double)( object_number * 20);
-         if( omega)
-            *omega = d * 360. / 1.3;   /* rotation once every 1.3 days */
+         set_unknown_object( object_number, d, pole_ra, pole_dec, omega);
          err = -1;
          }
 #ifdef TEST_MAIN
-- 
2.43.0


From 9250a4f5fe73fb2d024a0b1fa286f63d83b8dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:00 +0000
Subject: [PATCH 086/156] fix: the longitude of perihelion of Pluto was taken
 as its argument of perihelion

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index b82eeaa..384e809 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -384,7 +384,7 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
    elem->asc_node = elem_array[3];
                /* For planets,  the longitude of perihelion is given. */
                /* For asteroids,  it's the argument of perihelion.    */
-   if( planet_idx < 9)
+   if( planet_idx <= N_PLANET_RATES)
       elem->arg_per = elem_array[4] - elem_array[3];
    else
       elem->arg_per = elem_array[4];
-- 
2.43.0


From 69867a92c8f9d740808112f7d62eb9b27eafe1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 087/156] fix: the place, date and speed at the MOID were wrong
 if a first guess was already the nearest point

---
 moid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moid.cpp b/moid.cpp
index 384e809..049ac3f 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -196,11 +196,15 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    true_anomaly2 = true_anom_from_r( elem2, elem1->major_axis);
 // printf( "Nominal MOID true anom %f\n", true_anomaly2 * 180. / PI);
    least_dist_squared = find_point_moid_2( &idata, true_anomaly2);
+   min_true2 = true_anomaly2;
    if( true_anomaly2 && true_anomaly2 != PI)
       {
       dist_squared = find_point_moid_2( &idata, -true_anomaly2);
       if( least_dist_squared > dist_squared)
+         {
+         min_true2 = -true_anomaly2;
          least_dist_squared = dist_squared;
+         }
       }
    if( elem2->ecc < 1.)
    {
@@ -218,7 +222,10 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
          dist_squared = find_point_moid_2( &idata, pass * PI - arg_per);
 //       printf( "dist at node : %f\n", sqrt( dist_squared));
          if( dist_squared < least_dist_squared)
+            {
+            min_true2 = pass * PI - arg_per;
             least_dist_squared = dist_squared;
+            }
          }
    }
    for( pass = 0; pass < 2; pass++)
-- 
2.43.0


From 4309a0a1823f38f9f2a1d2c850783522b192a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:05 +0000
Subject: [PATCH 088/156] fix: a minimum midway between two grid points was not
 refined

---
 moid.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/moid.cpp b/moid.cpp
index 049ac3f..2518d6b 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -265,11 +265,21 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
          x[1] = x[2];   y[1] = y[2];
          x[2] = true_anomaly2;
          y[2] = dist_squared;
-         if( i > 0 && y[1] < y[0] && y[1] < y[2])
+         if( i > 0 && y[1] <= y[0] && y[1] < y[2])
             {                 /* we've got a MOID bracketed;  use Brent  */
             brent_min_t b;    /* algorithm to find the 'true' minimum */
 
-            brent_min_init( &b, x[0], y[0], x[1], y[1], x[2], y[2]);
+            if( y[1] < y[0])
+               brent_min_init( &b, x[0], y[0], x[1], y[1], x[2], y[2]);
+            else              /* exact tie:  minimum is between x[0] & x[1] */
+               {
+               const double mid_x = (x[0] + x[1]) / 2.;
+               const double mid_y = find_point_moid_2( &idata, mid_x);
+
+               if( mid_y >= y[1])
+                  continue;
+               brent_min_init( &b, x[0], y[0], mid_x, mid_y, x[1], y[1]);
+               }
             b.tolerance  = .000001 * PI / 180.;
             b.ytolerance  = .0000001;
             while( b.step_type)
-- 
2.43.0


From e68c6efd4e7dbdd41943268350c8c0ea00412b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:07 +0000
Subject: [PATCH 089/156] fix: MOIDs near zero were good only to 0.0001 AU or
 so

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index 2518d6b..5e2c7fe 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -281,7 +281,7 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
                brent_min_init( &b, x[0], y[0], mid_x, mid_y, x[1], y[1]);
                }
             b.tolerance  = .000001 * PI / 180.;
-            b.ytolerance  = .0000001;
+            b.ytolerance  = 1e-14;
             while( b.step_type)
                {
                const double new_true = brent_min_next( &b);
-- 
2.43.0


From db37af999455bc4a446a97afe8f673354b3f2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:00 +0000
Subject: [PATCH 090/156] fix: dates at the MOID with an asteroid used its mean
 anomaly as a mean longitude

---
 moid.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/moid.cpp b/moid.cpp
index 5e2c7fe..7cea37e 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -346,8 +346,7 @@ See https://ssd.jpl.nasa.gov/?planet_pos for a discussion.  For MOID finding,
 the longitude is irrelevant.  I left it in on the assumption that we might
 want it someday. Asteroid elements are from BC-405,  epoch 2451535.0.  The
 "longitudes" are actually mean anomalies,  and the "LonPer"s are actually
-arguments of perihelion;  the code corrects for that last,  and the mean
-anomaly/longitude isn't used (yet).   */
+arguments of perihelion;  the code corrects for both.   */
 
 static const double planet_elem[N_PLANET_ELEMS * 6] = {
          /*     a          eccent    inclin    AscNode   LonPer      Longit */
@@ -405,10 +404,14 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
       elem->arg_per = elem_array[4] - elem_array[3];
    else
       elem->arg_per = elem_array[4];
-   elem->mean_anomaly = centralize_angle( elem_array[5] - elem->asc_node - elem->arg_per);
+               /* Similarly for mean longitudes vs. mean anomalies. */
+   if( planet_idx <= N_PLANET_RATES)
+      elem->mean_anomaly = centralize_angle( elem_array[5] - elem->asc_node - elem->arg_per);
+   else
+      elem->mean_anomaly = elem_array[5];
       /* l = (100.46435 + (129597740.63 / 3600.) * t_cen) * PI / 180.; */
    derive_quantities( elem, SOLAR_GM);
-   elem->epoch = J2000 + t_cen * 36525.;
+   elem->epoch = (planet_idx <= N_PLANET_RATES ? J2000 + t_cen * 36525. : 2451535.);
    elem->perih_time = elem->epoch - elem->mean_anomaly * elem->t0;
 // printf( "epoch %f; t0 %f; mean anom %f\n", elem->perih_time, elem->t0,
 //          elem->mean_anomaly * 180. / PI);
-- 
2.43.0


From 36d2a418569419cf0369df65faf65cb7037da6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 091/156] fix: a month past the thirteenth in a typed time read
 outside the table of month lengths

---
 get_time.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 976b462..f2bc1ff 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -897,6 +897,12 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
 //       break;
       }
 
+   if( month > 13)      /* no calendar has more than thirteen months */
+      {
+      if( is_ut)
+         *is_ut = -8;
+      return( initial_t2k);
+      }
    if( is_bc)
       year = 1 - year;
    iday = (int)dday;
-- 
2.43.0


From bf0fb7f2a051bcb944cc97a3703f04709d00795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:29 +0000
Subject: [PATCH 092/156] fix: a star catalogue name longer than 80 characters
 overran a buffer

---
 mpc_fmt.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index a121973..ea0aec9 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -549,9 +549,9 @@ NET Gaia1
 upper/lower case,  and dropping the 'DR' for Gaia,  we've almost
 assuredly got the right catalog.   */
 
-static void reduce_net_name( char *obuff, const char *ibuff)
+static void reduce_net_name( char *obuff, const char *ibuff, size_t obuff_size)
 {
-   while( *ibuff)
+   while( *ibuff && obuff_size > 1)
       if( *ibuff == '-' || *ibuff == ' ')
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
@@ -559,7 +559,10 @@ static void reduce_net_name( char *obuff, const char *ibuff)
       else if( ibuff[0] == 'D' && ibuff[1] == 'R')
          ibuff += 2;
       else
+         {
          *obuff++ = toupper( *ibuff++);
+         obuff_size--;
+         }
    *obuff = '\0';
 }
 
@@ -568,10 +571,10 @@ char net_name_to_byte_code( const char *net_name)
    char net1[80], net2[80], rval = 0;
    size_t i;
 
-   reduce_net_name( net1, net_name);
+   reduce_net_name( net1, net_name, sizeof( net1));
    for( i = 0; net_codes[i]; i++)
       {
-      reduce_net_name( net2, net_codes[i] + 1);
+      reduce_net_name( net2, net_codes[i] + 1, sizeof( net2));
       if( !strcmp( net1, net2))
          rval = net_codes[i][0];
       }
-- 
2.43.0


From 9e13730ff6ce25522b5063be50119d1c9d7d1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 093/156] fix: packing an empty designation read past its
 terminator

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index ea0aec9..75b9817 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -722,7 +722,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 82f5419222a8246724d793fa5bfbb0499837ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 094/156] fix: dmy_to_day read past the table of month lengths
 for a month past the thirteenth

---
 date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 6cc74df..dabd59a 100644
--- a/date.cpp
+++ b/date.cpp
@@ -707,10 +707,10 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
          calendar_to_use = CALENDAR_JULIAN;
       }
    rval = get_calendar_data( year, year_ends, mdata, calendar_to_use);
-   if( !rval)
+   if( !rval && month <= N_MONTHS)     /* no calendar has more months */
       {
       if( day == RETURN_DAYS_IN_MONTH)
-         return( mdata[month - 1]);
+         return( month > 0 ? mdata[month - 1] : 0);
       jd = year_ends[0];
       for( int i = 0; i < month - 1; i++)
          jd += mdata[i];
-- 
2.43.0


From 38878b431a41fabe9c7fa18f9e42b5ce6143dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 095/156] fix: a delta-T definition without its colon, or
 ending in blanks, was read past its end

---
 delta_t.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 96f6570..2497865 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -120,10 +120,10 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
       if( tptr == dt_string || tptr[-1] == ';')
          {
          double year1, year2;
-         int bytes_read;
+         int bytes_read = 0;     /* stays zero if there's no colon */
 
          if( sscanf( tptr, "%lf,%lf:%n", &year1, &year2, &bytes_read) == 2
-                  && year >= year1 && year < year2)
+                  && bytes_read && year >= year1 && year < year2)
             {
             double offset = 2000., x, power = 1., coeff;
 
@@ -131,6 +131,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             if( *tptr == 'o')
                {
                tptr++;
+               bytes_read = 0;
                sscanf( tptr, "%lf,%n", &offset, &bytes_read);
                tptr += bytes_read;
                }
@@ -138,7 +139,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             *delta_t = 0.;
             rval = 0;
             while( tptr[-1] != ';' && *tptr
-                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read))
+                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read) == 1)
                {
                *delta_t += power * coeff;
                power *= x;
-- 
2.43.0


From 8c063151b207daf33644ca36b9f18c3c67a4399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 096/156] fix: ADES tags longer than a known one were compared
 past the end of the known one

---
 ades2mpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 4e72291..7884cba 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -310,10 +310,10 @@ static int find_tag( const char *buff, size_t len)
       buff++;
       len--;
       }
-   if( !memcmp( buff, "ades", 4))
+   if( len >= 4 && !memcmp( buff, "ades", 4))
       rval = 0;
    for( i = 0; tags[i] && rval == -1; i++)
-      if( !memcmp( tags[i], buff, len) && !tags[i][len])
+      if( strlen( tags[i]) == len && !memcmp( tags[i], buff, len))
          rval = i + 1;
    return( rval);
 }
-- 
2.43.0


From 1628f8cee2ec0159f368da48809721a60463feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 097/156] fix: short ADES times and station codes were read
 past their ends

---
 ades2mpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 7884cba..3fb031f 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -378,7 +378,7 @@ static inline size_t move_fits_time( char *optr, const char *iptr)
 {
    size_t n_bytes = 0;
 
-   if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
+   if( strlen( iptr) > 13 && iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
@@ -598,7 +598,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          }
          break;
       case ADES_stn:
-         memcpy( cptr->line + 77, tptr, 3);
+         memcpy( cptr->line + 77, tptr, (len < 3) ? len : 3);
          break;
       case ADES_obsTime:
          {
-- 
2.43.0


From 9aaf36b36befe2047461be03922edc8b3098da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:52 +0000
Subject: [PATCH 098/156] fix: an ADES RA or declination of more than 25
 characters overran its buffer

---
 ades2mpc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 3fb031f..4bf088d 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -805,6 +805,8 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             }
          if( place_value( cptr->line + 32, tptr, len, 3))
             {
+            if( len > sizeof( cptr->full_ra) - 1)
+               len = sizeof( cptr->full_ra) - 1;
             memcpy( cptr->full_ra, tptr, len);     /* 'overlong' RA */
             cptr->full_ra[len] = '\0';
             }
@@ -819,6 +821,8 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             cptr->line[44] = '+';
          if( place_value( cptr->line + 45, tptr, len, 2))
             {              /* 'overlong' dec */
+            if( len > sizeof( cptr->full_dec) - 2)
+               len = sizeof( cptr->full_dec) - 2;
             cptr->full_dec[0] = cptr->line[44];
             memcpy( cptr->full_dec + 1, tptr, len);
             cptr->full_dec[len + 1] = '\0';
-- 
2.43.0


From ca017ddbcfce3f95f1606a10fa56a19882b4f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 099/156] fix: a roving observer's longitude or latitude with
 too many digits was written before its record

---
 ades2mpc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 4bf088d..83d0b19 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -769,6 +769,12 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
 
             if( !tptr2)          /* whole number of degrees or meters */
                tptr2 = name + len;
+            if( itag != ADES_pos3 && tptr2 - name > 4)
+               {              /* can't be degrees */
+               strlcpy_err( obuff, "Bad posn data\n", obuff_size);
+               rval = 1;
+               break;
+               }
             if( itag == ADES_pos1)     /* East longitude */
                loc = 37 - (tptr2 - name);
             else if( itag == ADES_pos2)
@@ -776,7 +782,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                if( *name == '-' || *name == '+')
                   {
                   cptr->line2[45] = *name;
-                  memmove( name, name + 1, len);
+                  memmove( name, name + 1, strlen( name));
                   tptr2--;
                   len--;
                   }
-- 
2.43.0


From 5af1f8cbcc023512bbb1c70243660ab52af3f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:57 +0000
Subject: [PATCH 100/156] fix: a control character between ADES XML tags made
 the reader loop forever

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 83d0b19..735509d 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1236,7 +1236,7 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
 
          while( tptr[len] && tptr[len] != '<')
             len++;
-         while( len && (unsigned char)tptr[len - 1] <= ' ')
+         while( len > 1 && (unsigned char)tptr[len - 1] <= ' ')
             len--;
          rval = process_ades_tag( obuff, cptr, itag, tptr, len);
          tptr += len;
-- 
2.43.0


From fa14e588704a1203facba78bc2b7603bcbd6b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 101/156] fix: reading an empty file searched an uninitialised
 buffer, past its end, for a terminator

---
 ades2mpc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 735509d..9162f26 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1291,6 +1291,7 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
 {
    ades2mpc_t *cptr = (ades2mpc_t *)ades_context;
    int prev_rval = cptr->prev_rval;
+   const char *end_of_buff = buff + len - 1;
 
    if( prev_rval < 0)      /* can't make sense of that line;  skip it */
       prev_rval = 0;
@@ -1298,8 +1299,8 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
-   while( *buff && *buff != 10 && *buff != 13)
-      buff++;
+   while( buff < end_of_buff && *buff && *buff != 10 && *buff != 13)
+      buff++;           /* (buffer may be uninitialized if nothing was read) */
    *buff = '\0';
    cptr->prev_rval = prev_rval;
    return( prev_rval);
-- 
2.43.0


From 14213c372726bb4c312060593c9290b243cbc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 102/156] fix: the Sun's terms in Iapetus' inclination, node
 and longitude used Titan's angle phi instead of psi

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index b4437de..20c90b0 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -433,11 +433,11 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
                                   -.06312 * sin( ls)
                                   -.00295 * sin( ls + ls)
                                   -.02231 * sin( ls_plus_gs_2)
-                                  +.00650 * sin( ls_plus_gs_2 + phi);
-         const double d_incl = .04204 * cos( ls_plus_gs_2 + phi)
+                                  +.00650 * sin( ls_plus_gs_2 + psi);
+         const double d_incl = .04204 * cos( ls_plus_gs_2 + psi)
                                +.00235 * cos( l + g1 + lt_plus_gt + phi)
                                +.00360 * cos( l - lt_gt_minus_g1 + phi);
-         const double d_Omega = .04204 * sin( ls_plus_gs_2 + phi)
+         const double d_Omega = .04204 * sin( ls_plus_gs_2 + psi)
                                +.00235 * sin( l + g1 + lt_plus_gt + phi)
                                +.00358 * sin( l - lt_gt_minus_g1 + phi);
 
-- 
2.43.0


From 4fb39f04fe9d5712aa8c9c363a6260640dfce015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 103/156] fix: Titan's longitude of perisaturnium was perturbed
 by beta times the eccentricity instead of beta

---
 ssats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssats.cpp b/ssats.cpp
index 20c90b0..159ce79 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -256,7 +256,7 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-         elems->omega += beta * elems->ecc * (sin( g + g) - sin( g0 + g0));
+         elems->omega += beta * (sin( g + g) - sin( g0 + g0));
          }
          break;
       case HYPERION:
-- 
2.43.0


From 6d61841abc6eec34072bc6a51c90af0592d223de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 104/156] fix: the offsets of Hyperion's orbit plane in node
 and inclination were interchanged

---
 ssats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 159ce79..1f07185 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -300,12 +300,12 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double sin_hy_gamma0 =             .011231;
 
                                        /* from (45), p 59 */
-         const double Omega1_plus_dOmega =    ASC_NODE0 - .747 * PI / 180.;
-         const double Incl1_plus_dIncl =          INCL0 - .13 * PI / 180.;
+         const double Omega1_plus_dOmega =    ASC_NODE0 - .13 * PI / 180.;
+         const double Incl1_plus_dIncl =          INCL0 - .747 * PI / 180.;
 /*       const double Omega1_plus_dOmega =    ASC_NODE0 - .0078 * PI / 180.; */
 /*       const double Incl1_plus_dIncl =          INCL0 - .0455 * PI / 180.; */
-         const double sin_Incl1_plus_dIncl =        0.468727;
-         const double tan_half_Incl1_plus_dIncl =   0.248880;
+         const double sin_Incl1_plus_dIncl =        0.459188;
+         const double tan_half_Incl1_plus_dIncl =   0.243170;
 
                                        /* from (44), p 59 */
          const double big_T = (elems->jd - 2442000.5) / 365.25;
-- 
2.43.0


From 9e764139ea3fac7eb64703c3d1e863740b05f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 105/156] fix: the terms in Hyperion's semimajor axis, already
 in AU, were converted from arcseconds again and so lost

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 1f07185..f4356e8 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -363,13 +363,13 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->omega += C_omega_2zeta * arg;
 
          arg = cos( tau);
-         elems->semimaj += C_a_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_tau * arg;
          elems->ecc += C_e_tau * arg;
          arg = cos( zeta + tau);
-         elems->semimaj += C_a_zeta_plus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_plus_tau * arg;
          elems->ecc += C_e_zeta_plus_tau * arg;
          arg = cos( zeta - tau);
-         elems->semimaj += C_a_zeta_minus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_minus_tau * arg;
          elems->ecc += C_e_zeta_minus_tau * arg
                       + C_e_zeta * cos( zeta)
                       + C_e_2zeta * cos( zeta + zeta)
-- 
2.43.0


From 4671c677daa5d8b53b53dcd3df384291d52941d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 106/156] fix: Titan's orbit was given Rhea's inclination
 (.3469 degrees, not .2960) to its Laplace plane

---
 ssats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index f4356e8..659cd57 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -243,16 +243,18 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          {
          const double Omega1_plus_dOmega = ASC_NODE0 - .1420 * PI / 180.;
          const double Incl1_plus_dIncl = INCL0 - .6303 * PI / 180.;
+         const double sin_titan_gamma0 = .0051662;      /* sin(.2960 degrees) */
+         const double sin_titan_gamma0_tan_half_incl = .00129197;
          const double g0 = 103.199 * PI / 180.;
          const double beta = .3752 * PI / 180.;
 
          double big_N = elems->Omega, g;
          double perturb_Omega, perturb_incl;
 
-         elems->lambda += sin_gamma0_tan_half_incl * sin( big_N);
-         perturb_Omega = sin_gamma0 * sin( big_N);
+         elems->lambda += sin_titan_gamma0_tan_half_incl * sin( big_N);
+         perturb_Omega = sin_titan_gamma0 * sin( big_N);
          elems->Omega = Omega1_plus_dOmega + perturb_Omega / sin_incl1;
-         perturb_incl = sin_gamma0 * cos( big_N);
+         perturb_incl = sin_titan_gamma0 * cos( big_N);
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-- 
2.43.0


From a8ebf9e7119af9ee3038649db0b702d3a0ce267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 107/156] fix: each of Uranus' moons was given another moon's
 mass, which put Miranda 1.5 km off

---
 gust86.cpp  |  2 +-
 uranus1.cpp | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/gust86.cpp b/gust86.cpp
index 14c8b90..fe84bbc 100644
--- a/gust86.cpp
+++ b/gust86.cpp
@@ -647,7 +647,7 @@ void __stdcall gust86_posn( const double jde, const int isat, double *r )
 {
    static const double gms[5] =
    {                               // GM of each of the five satellites
-      4.4, 86.1, 84.0, 230.0, 200.0    // in km^3/s^2
+      86.1, 84.0, 230.0, 200.0, 4.4    // in km^3/s^2
    };
    const double AU_in_km = 149597870.0;         // 1AU in km
                // NOTE:  modern value is 149597870.7,  700 m larger
diff --git a/uranus1.cpp b/uranus1.cpp
index 9878943..bd2116f 100644
--- a/uranus1.cpp
+++ b/uranus1.cpp
@@ -75,16 +75,16 @@ static void subtract_test_data( double *ivals, const int satellite,
             /* 'uranus1 2451539.5 z',  and the following will be subtracted */
             /* from the output,  and you should get all zeroes.         */
    static const double test_data[60] = {
-    130608.740570,  -63609.454817,  123914.157536,
-                        332753.924857,   19395.739133, -339739.097154,
-    169031.139042,  -89894.351535,  186085.561827,
-                        299665.211058,    7278.266868, -267484.726136,
-   -270565.130051,  -33419.941877,  341847.964177,
-                        237818.078944, -102815.738968,  177702.440261,
-    528175.409357,  -51133.015840, -242110.654650,
-                       -100437.576682,   87763.875080, -237466.804419,
-   -128422.243906,   15056.226282,   12341.164393,
-                         33339.740820, -163282.893418,  552432.372423 };
+    130609.354476,  -63609.753803,  123914.739975,
+                         332755.488913,   19395.830299, -339740.694043,
+    169031.118631,  -89894.340680,  186085.539357,
+                         299665.174872,    7278.265989, -267484.693836,
+   -270567.402645,  -33420.222585,  341850.835507,
+                         237820.076481, -102816.602562,  177703.932861,
+    528174.497825,  -51132.927594, -242110.236813,
+                        -100437.403345,   87763.723616, -237466.394596,
+   -128420.798797,   15056.056858,   12341.025520,
+                          33339.365654, -163281.056029,  552426.156014 };
 #endif
    int i;
 
-- 
2.43.0


From 1925e51691dc282f246694371185b74b78f6d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 108/156] fix: compute_planet( ) gives Pluto's position instead
 of aborting

---
 getplane.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/getplane.cpp b/getplane.cpp
index d0a6195..7c1a442 100644
--- a/getplane.cpp
+++ b/getplane.cpp
@@ -50,7 +50,25 @@ int DLL_FUNC compute_planet( const char FAR *vsop_data, const int planet_no,
    const double obliq_2000 = 23.4392911 * PI / 180.;
 
             /* first,  compute polar heliocentric in eclip of date */
-   if( planet_no != 10)
+   if( planet_no == 9)
+      {
+      double loc[3];       /* Pluto comes in the J2000 ecliptic frame; */
+                           /* rotate & precess it to that of date      */
+      calc_pluto_loc( vsop_data, loc, t_c, 0L);
+      ovals[3] = cos( loc[0]) * cos( loc[1]) * loc[2];
+      ovals[4] = sin( loc[0]) * cos( loc[1]) * loc[2];
+      ovals[5] =                sin( loc[1]) * loc[2];
+      rotate_vector( ovals + 3, obliq_2000, 0);
+      setup_precession( matrix, 2000., 2000. + t_c * 100.);
+      precess_vector( matrix, ovals + 3, ovals + 6);
+      rotate_vector( ovals + 6, -obliquit, 0);
+      r = loc[2];
+      lon = atan2( ovals[7], ovals[6]);
+      if( lon < 0.)
+         lon += PI + PI;
+      lat = asin( ovals[8] / r);
+      }
+   else if( planet_no != 10)
       {
       lon = calc_vsop_loc( vsop_data, planet_no, 0, t_c, 0.);
       lat = calc_vsop_loc( vsop_data, planet_no, 1, t_c, 0.);
-- 
2.43.0


From 521cc6548a33c6b31a376a5f72c4c11772513bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 109/156] fix: ELP-82 series: no leak on early exit; last
 partial chunk is read; truncated file is reported

---
 elp82dat.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..33d39e2 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -131,7 +131,8 @@ static void compute_lunar_polynomials( const double t_cen, double *fund,
 #define CHUNK_SIZE 10000
 
 static double add_in_series( FILE *ifile, const int series_no,
-                 const double *fund, const double prec, long n_terms)
+                 const double *fund, const double prec, long n_terms,
+                 int *err)
 {
    double rval = 0.;
    char *tptr, *ibuff;
@@ -174,7 +175,10 @@ static double add_in_series( FILE *ifile, const int series_no,
       printf( "n_terms: %ld\n", n_terms);
       }
 #else
+      {
+      *err = -1;
       return( 0.);
+      }
 #endif
    while( n_terms--)
       {
@@ -182,14 +186,19 @@ static double add_in_series( FILE *ifile, const int series_no,
       double angle;
 
       if( ibuff == tptr)
-         if( !fread( ibuff, chunk_size, term_size, ifile))
+         {           /* last chunk may be a partial one */
+         if( chunk_size > (size_t)n_terms + 1)
+            chunk_size = (size_t)n_terms + 1;
+         if( fread( ibuff, term_size, chunk_size, ifile) != chunk_size)
             {
             free( ibuff);
+            *err = -2;
             return( 0.);
             }
+         }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
@@ -269,7 +278,7 @@ ELP_DATA_HEADER
 static int get_elp_values( FILE *ifile, const double t_cen,
                      const double prec0, double *ovals)
 {
-   int i;
+   int i, err = 0;
    double addition;
    double fund[N_FUND_COEFFS];
    ELP_DATA_HEADER *hdr = (ELP_DATA_HEADER *)malloc( sizeof( ELP_DATA_HEADER));
@@ -302,7 +311,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
       fseek( ifile, hdr->offsets[i + i], SEEK_SET);
       if( hdr->offsets[i + i + 1])
          addition = add_in_series( ifile, i, fund, prec,
-                                               hdr->offsets[i + i + 1]);
+                                               hdr->offsets[i + i + 1], &err);
       else
          addition = 0.;
       if( series_type == 2 || series_type == 4 ||
@@ -316,7 +325,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
          ovals[i % 3] += addition * (PI / 180.) / 3600.;
       }
    free( hdr);
-   return( 0);
+   return( err);
 }
 
                /* Laskar's coeffs for precession,  p. 12: */
-- 
2.43.0


From f557df181fdc1ee8a3876c58fd6e04582fc333d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 110/156] fix: calc_big_vsop_loc( ) kept a stale header cache,
 leaked its file on errors, accepted cut-off data

---
 big_vsop.cpp | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..647628b 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -90,15 +90,13 @@ the final series actually ends.)
 
    Since each header entry is a short int,  we're looking at 290 bytes.
 
-   In a possibly misguided effort to save space (well,  it _did_ make
-lots of sense back in 1993!),  I store the header data needed for
-one particular planet in RAM at a given time.  If someone asks for
-a "new planet" (in big_vsop.cpp,  'if( curr_planet != planet)'),
-then we dig through 'big_vsop.bin' for the required header data
-and store it in a static array.  That requirement is for nineteen
+   The header data needed for the planet asked for is read each time
+from 'big_vsop.bin'.  (It used to be kept in a static array until
+"new planet" came along.  But with that,  one couldn't switch files,
+and a failed read left it in a mess.)  That requirement is for nineteen
 short integers:  there are three values to be computed (lat/lon/r)
 and six series for each of them (1, t, t^2, ...t^5),  and we need
-to know where the last of them ends.  So the static array 'cache'
+to know where the last of them ends.  So the array 'cache'
 is dimensioned for 19 shorts.
 
    We then use that data stored in 'cache' to go forth and grab
@@ -121,9 +119,8 @@ in 'big_vsop.cpp' reads as
 int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
                       double *ovals, double t, const double prec0)
 {
-   static int16_t cache[19];
-   static int curr_planet = 99;
-   int close_it = 0, value;
+   int16_t cache[19];
+   int close_it = 0, value, rval = 0;
 
    ovals[0] = ovals[1] = ovals[2] = 0.;
    if( !planet)
@@ -135,18 +132,14 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       }
    if( !ifile)
       return( -1);                              /* ...then give up. */
-   if( curr_planet != planet)
-      {                             /* reload the cache */
-      fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
-         return( -2);
-      curr_planet = planet;
-      }
+   fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
+   if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+      rval = -2;
 
    t /= 10.;         /* convert to julian millennia */
-   for( value = 0; value < 3; value++)
+   for( value = 0; !rval && value < 3; value++)
       {
-      double sum, rval = 0., power = 1., prec = prec0;
+      double sum, total = 0., power = 1., prec = prec0;
       int16_t *loc = cache + value * 6;
       int i, j;
 
@@ -154,15 +147,18 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       if( prec < 0.)
          prec = -prec;
 
-      for( i = 6; i; i--, loc++)
+      for( i = 6; !rval && i; i--, loc++)
          {
          double idata[3];
 
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
-               return( -3);
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
+               {
+               rval = -3;
+               break;
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
@@ -170,16 +166,18 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
                sum += idata[0] * cos( argument);
                }
             }
-         rval += sum * power;
+         total += sum * power;
          power *= t;
          if( t)
             prec /= t;
          }
-      ovals[value] = rval;
+      ovals[value] = total;
       }
 
    if( close_it)
       fclose( ifile);
+   if( rval)
+      return( rval);
 
    ovals[0] = fmod( ovals[0], 2. * PI);
    if( ovals[0] < 0.)
-- 
2.43.0


From 2eadd8ea15e4284d5b62710fb41276a5fd6dd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 111/156] fix: load_ps1996_series( ) used uninitialised data
 when its file was cut short

---
 de_plan.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/de_plan.cpp b/de_plan.cpp
index 613f197..61aaf62 100644
--- a/de_plan.cpp
+++ b/de_plan.cpp
@@ -134,7 +134,7 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
    long jump = 0;
    int read_error = 0;
    int16_t block_sizes[30];
-   int block, i, close_file = 0;
+   int block = -1, i, close_file = 0;
    POISSON_HEADER header;
    char *tbuff, *tptr;
    POISSON p;
@@ -149,13 +149,17 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
 
    fseek( ifile, (long)(planet_no - 1) * (long)sizeof( int32_t), SEEK_SET);
-   if( !fread( &offset, 1, sizeof( int32_t), ifile))
+   if( !fread( &offset, sizeof( int32_t), 1, ifile))
       read_error = -1;
-   fseek( ifile, offset, SEEK_SET);
-   if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
-      read_error = -1;
-   block = (int)floor( (jd - header.tzero) / header.dt);
-   if( block < 0 || block >= header.n_blocks || read_error)
+   if( !read_error)
+      {
+      fseek( ifile, offset, SEEK_SET);
+      if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
+         read_error = -1;
+      }
+   if( !read_error)
+      block = (int)floor( (jd - header.tzero) / header.dt);
+   if( read_error || block < 0 || block >= header.n_blocks)
       {
       if( close_file)
          fclose( ifile);
@@ -179,10 +183,17 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
    p.fqs = (double *)( rval + 1);
    p.terms = p.fqs + header.total_fqs;
-   if( !fread( p.fqs, (size_t)header.total_fqs, sizeof( double), ifile))
+   if( fread( p.fqs, sizeof( double), (size_t)header.total_fqs, ifile)
+                     != (size_t)header.total_fqs)
       read_error = -3;
-   if( !fread( block_sizes, (size_t)header.n_blocks, sizeof( int16_t), ifile))
-      read_error = -4;
+   if( fread( block_sizes, sizeof( int16_t), (size_t)header.n_blocks, ifile)
+                     != (size_t)header.n_blocks)
+      {
+      free( rval);
+      if( close_file)
+         fclose( ifile);
+      return( NULL);
+      }
    for( i = 0; i < block; i++)
       jump += (long) block_sizes[i];
    fseek( ifile, jump, SEEK_CUR);
-- 
2.43.0


From 49ebfa5d4d6a1d848d05524608fd3a06b630c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 112/156] fix: extract_astorb_dat( ) read past the end of a
 line with no blank after a value

---
 mpcorb.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpcorb.cpp b/mpcorb.cpp
index 160ec8a..cabc7d3 100644
--- a/mpcorb.cpp
+++ b/mpcorb.cpp
@@ -124,17 +124,17 @@ long extract_mpcorb_dat( ELEMENTS *elem, const char *buff)
 
 static long extract_long( const char *ibuff)
 {
-   long rval = 0;
+   unsigned long rval = 0;      /* garbage with many digits may overflow */
 
    while( *ibuff == ' ')      /* skip leading spaces */
       ibuff++;
-   while( *ibuff != ' ')
+   while( *ibuff >= '.' && *ibuff <= '9')
       {
-      if( *ibuff != '.')
-         rval = rval * 10 + (long)( *ibuff - '0');
+      if( *ibuff >= '0')
+         rval = rval * 10 + (unsigned long)( *ibuff - '0');
       ibuff++;
       }
-   return( rval);
+   return( (long)rval);
 }
 
 long extract_astorb_dat( ELEMENTS *elem, const char *buff)
-- 
2.43.0


From b1658e20882aadfb5a48f10100779a125c70d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 113/156] fix: dates with a non-digit in the year, month or day
 or an impossible month were read as Julian Days near zero

---
 mpc_fmt.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 75b9817..e06d2d9 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -186,10 +186,15 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
                    && tbuff[7] == ' ' && tbuff[10] == '.')
       {                        /* no leading zero given for month,  day, */
       if( tbuff[5] == ' ')     /* or both;  fill it in with zero(es)  */
+         {
          tbuff[5] = '0';
+         digits_mask |= 32;
+         }
       if( tbuff[8] == ' ')
+         {
          tbuff[8] = '0';
-      digits_mask |= 32 + 256;
+         digits_mask |= 256;
+         }
       }
    if( tbuff[4] == ' ')
       {                       /* standard YYYY MM DD.dddddd format */
@@ -258,6 +263,9 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
          start_of_decimals = 8;
          }
       }
+   if( format_found != 10 && format_found != 40
+                         && (month < 1 || month > 12))
+      rval = 0.;        /* not a JD or MJD,  and no such month */
    if( format)
       {
       if( start_of_decimals)
-- 
2.43.0


From 3ccb774d75ec2b81c407d64cd6c458512bebd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:48 +0000
Subject: [PATCH 114/156] fix: jd overran its buffer when given a long command
 line

---
 jd.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jd.cpp b/jd.cpp
index 23ba92b..2edc310 100644
--- a/jd.cpp
+++ b/jd.cpp
@@ -28,6 +28,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include "watdefs.h"
 #include "date.h"
 #include "afuncs.h"
+#include "stringex.h"
 
 #ifdef __WATCOMC__
 #define floorl floor
@@ -221,8 +222,9 @@ int main( int argc, char **argv)
       else
          {
          if( *buff)
-            strcat( buff, " ");
-         strcat( buff, argv[i]);
+            strlcat( buff, " ", sizeof( buff));
+         if( strlcat( buff, argv[i], sizeof( buff)) >= sizeof( buff))
+            error_exit( );       /* no date is anything like that long */
          }
 
    if( !*buff)
-- 
2.43.0


From 797bdb91a35aa4c780424e2280ab111d6e62c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 115/156] fix: calendar crashed when given a year only, which
 should show all twelve months

---
 calendar.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/calendar.cpp b/calendar.cpp
index a4e714f..be26183 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -681,7 +681,10 @@ int main( const int argc, const char **argv)
    if( argc == 1)
       error_exit( -2);
    year = atoi( argv[1]);
-   month = atoi( argv[2]);
+   if( argc > 2 && argv[2][0] != '-')
+      month = atoi( argv[2]);
+   else                    /* year only:  all twelve months are shown */
+      dollhouse = 1;
    if( month > year)       /* allow for possible reversed entry */
       {
       month = year;
-- 
2.43.0


From 81e7691276a16fd54ed9e7ab124e4feb5b4eedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:51 +0000
Subject: [PATCH 116/156] fix: calendar numbered the days of October 1582 as 1
 to 21

---
 calendar.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/calendar.cpp b/calendar.cpp
index be26183..fdd31f2 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -142,10 +142,21 @@ static int get_phase_data( const double t, double *t_phases)
    return( rval);
 }
 
+      /* The i-th day of a month is usually day 'i',  except for October */
+      /* 1582,  where the fourth was followed by the fifteenth.          */
+static int day_of_month( const long jd)
+{
+   int day, month;
+   long year;
+
+   day_to_dmy( jd, &day, &month, &year, CALENDAR_JULIAN_GREGORIAN);
+   return( day);
+}
+
 static void show_small_month( int month, int year, const int x0, int y0)
 {
    long jd1, jd2;
-   int n_days, starting_loc, i, j, k, day;
+   int n_days, starting_loc, i, j, k, day, mday;
    char buff[100];
    double t_phases[12];
 
@@ -183,9 +194,10 @@ static void show_small_month( int month, int year, const int x0, int y0)
             char *tptr = buff + j * 3;
             const char *phase_text = "NM 1Q FM 3Q";
 
-            tptr[0] = (char)( '0' + day / 10);
-            tptr[1] = (char)( '0' + day % 10);
-            if( day < 10)
+            mday = day_of_month( jd1 + day);
+            tptr[0] = (char)( '0' + mday / 10);
+            tptr[1] = (char)( '0' + mday % 10);
+            if( mday < 10)
                tptr[0] = ' ';
             for( k = 0; k < 12; k++)
                if( (long)(t_phases[k] + 0.5) == jd1 + day)
@@ -373,6 +385,15 @@ static char **grab_dates( const int month, const int year)
 
          day = (unsigned)( minutes / minutes_per_day);
          if( day > 0 && day < 32)
+            {
+            int mday, tmonth;
+            long tyear;
+
+            day_to_dmy( jd + (long)day, &mday, &tmonth, &tyear,
+                                        CALENDAR_JULIAN_GREGORIAN);
+            day = (tmonth == month ? (unsigned)mday : 0u);
+            }
+         if( day)
             {
             const char *phases[4] = { "*New moon", "*First quarter",
                        "*Full moon", "*Last quarter" };
@@ -536,17 +557,18 @@ static int calendar( const int month, const int year)
       int xcell = (i + starting_loc) % 7, curr_font = FONT_UNSET;
       int ycell = 4 - (i + starting_loc) / 7, double_cell = 0, x0, y0;
       int cell_idx;
+      const int mday = day_of_month( jd1 + i);
 
       if( starting_loc == 6)        /* first of month is on a sunday */
          ycell++;
       if( !wraparound_style && !ycell
                       && i + 7 <= n_days)     /* two days in one cell */
          {
-         snprintf_err( buff, 6, "%d/%d", i, i + 7);
+         snprintf_err( buff, 6, "%d/%d", mday, day_of_month( jd1 + i + 7));
          double_cell = 1;
          }
       else
-         snprintf_err( buff, 3, "%d", i);
+         snprintf_err( buff, 3, "%d", mday);
       if( wraparound_style && ycell < 0)    /* this is a wraparound case */
          ycell = 4;
       x0 = X0 + xcell * xsize;
@@ -569,7 +591,7 @@ static int calendar( const int month, const int year)
          }
       cell_idx = (4 - ycell) * 7 + xcell;
       for( j = 0; dates[j]; j++)
-         if( dates[j][0] == i)
+         if( dates[j][0] == mday)
             {
             char *text_to_show = dates[j] + 1;
             const int is_lunar_phase = (*text_to_show == '*');
@@ -598,7 +620,7 @@ static int calendar( const int month, const int year)
 
             fprintf( ofile, "%d %d moveto ", xloc, yloc);
             if( double_cell && *text_to_show)
-               fprintf( ofile, "(\050%d\051 ) show ", i);
+               fprintf( ofile, "(\050%d\051 ) show ", mday);
             if( *text_to_show == '+' && text_to_show[1] == ' ')
                {
                fprintf( ofile, "blood ");
-- 
2.43.0


From df8019084e37135e51217bfd9a60c96517056efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 117/156] fix: strlcpy_err( ) and strlcat_err( ) read past a
 full or empty buffer when composing their message

---
 snprintf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snprintf.cpp b/snprintf.cpp
index fb549c8..77d293b 100644
--- a/snprintf.cpp
+++ b/snprintf.cpp
@@ -195,8 +195,8 @@ size_t strlcpy_err( char *dst, const char *src, const size_t dsize)
 
    if( rval >= dsize)
       {
-      fprintf( stderr, "strlcpy overflow: dsize = %ld, rval %ld, '%s', '%s'\n",
-                     (long)dsize, (long)rval, dst, src);
+      fprintf( stderr, "strlcpy overflow: dsize = %ld, rval %ld, '%.*s', '%s'\n",
+                     (long)dsize, (long)rval, (int)dsize, dst, src);
       assert( rval >= dsize);
       exit( -1);
       }
@@ -209,8 +209,8 @@ size_t strlcat_err( char *dst, const char *src, const size_t dsize)
 
    if( rval >= dsize)
       {
-      fprintf( stderr, "strlcat overflow: dsize = %ld, rval %ld, '%s', '%s'\n",
-                     (long)dsize, (long)rval, dst, src);
+      fprintf( stderr, "strlcat overflow: dsize = %ld, rval %ld, '%.*s', '%s'\n",
+                     (long)dsize, (long)rval, (int)dsize, dst, src);
       assert( rval >= dsize);
       exit( -1);
       }
-- 
2.43.0


From 9f3ea50505d3cc0574d8266c12097d8df60292d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 118/156] fix: elements_in_mpc_format( ) wrote past the end of
 small buffers and cut the 'km' off some perihelion distances

---
 showelem.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/showelem.cpp b/showelem.cpp
index c24b5c3..94f246f 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -89,6 +89,15 @@ static double normal_vect( double *norm, const double *ival)
    return( rval);
 }
 
+         /* Spaces are added until the text is 'len' bytes long */
+static void pad_with_spaces( char *obuff, const size_t obuff_size,
+                                                   const size_t len)
+{
+   if( strlen( obuff) < len)
+      snprintf_append( obuff, obuff_size, "%*s",
+                                   (int)( len - strlen( obuff)), "");
+}
+
 static int show_formatted_dist( char *obuff, const size_t obuff_size,
            const double dist_in_au, const int precision)
 
@@ -97,8 +106,8 @@ static int show_formatted_dist( char *obuff, const size_t obuff_size,
 
    if( dist_in_au < 0.)
       {
-      *obuff++ = '-';
-      return( show_formatted_dist( obuff, obuff_size, -dist_in_au, precision));
+      strlcpy_err( obuff, "-", obuff_size);
+      return( show_formatted_dist( obuff + 1, obuff_size - 1, -dist_in_au, precision));
       }
    if( dist_in_au > 999999.)
       {
@@ -119,7 +128,11 @@ static int show_formatted_dist( char *obuff, const size_t obuff_size,
    while( obuff[i++] != '.')
       n_digits++;
    if( n_digits < precision + 4)
-      obuff[i + precision + 4 - n_digits] = '\0';
+      {
+      i += precision + 4 - n_digits;
+      if( i < (int)strlen( obuff))
+         obuff[i] = '\0';
+      }
    else
       obuff[i - 1] = '\0';
    if( in_km)
@@ -149,7 +162,6 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
                   const ELEMENTS *elem, const char *obj_id,
                   const int is_cometary, const int format)
 {
-   const char *nineteen_blank_spaces = "                   ";
    double p_vect[3], q_vect[3];
    double dday;
    int month, i;
@@ -210,11 +222,9 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
    n_lines++;
    if( is_cometary || elem->ecc >= 1.)
       {
-      *obuff = 'q';
+      strlcpy_err( obuff, "q", endptr - obuff);
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, perihelion_dist, precision);
-      for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
-         obuff[i] = ' ';
-      obuff[n_digits_to_show + 9] = '\0';
+      pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
       }
    else
       {
@@ -244,10 +254,8 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
                obuff[2] = 'N';
          }
       else
-         strlcpy( obuff, nineteen_blank_spaces, endptr - obuff);
-      for( i = 19; i < n_digits_to_show + 9; i++)
-         obuff[i] = ' ';
-      obuff[i] = '\0';
+         strlcpy_err( obuff, "", endptr - obuff);
+      pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
       }
    else
       {
@@ -270,19 +278,17 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
    if( is_cometary || elem->ecc >= 1.)
       {
       if( elem->major_axis > -0.0011 || elem->major_axis < -100000.)
-         *obuff = '\0';             /* z won't fit or is meaninglessly large */
+         strlcpy_err( obuff, "", endptr - obuff);   /* z won't fit or is meaninglessly large */
       else
          snprintf_err( obuff, endptr - obuff, "z%*.*f",
                   n_digits_to_show + 5, n_digits_to_show, 1. / elem->major_axis);
       }
    else
       {
-      *obuff = 'a';
+      strlcpy_err( obuff, "a", endptr - obuff);
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, elem->major_axis, precision);
       }
-   for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
-      obuff[i] = ' ';
-   obuff[i] = '\0';
+   pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
    obuff += strlen( obuff);
 
    snprintf_err( obuff, endptr - obuff, "Node %*.*f", n_digits_to_show + 6,
@@ -302,7 +308,7 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
                        n_digits_to_show + 3, elem->ecc);
       lop_digits( obuff + 8, precision);
       }
-   obuff[n_digits_to_show + 9] = '\0';
+   pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
    obuff += strlen( obuff);
 
    snprintf_err( obuff, endptr - obuff, "Incl.%*.*f", n_digits_to_show + 6,
-- 
2.43.0


From 5981046919934717308aa3c2c3b35955a4959662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 119/156] fix: nearest lunar phase was the one nearest by mean
 lunation, not the nearest in fact

---
 get_time.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index f2bc1ff..eec8e1a 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -34,6 +34,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #ifdef __WATCOMC__
 #define floorl floor
 #define sinl sin
+#define fabsl fabs
 #endif
 
 long double DLL_FUNC split_timel( long double t2k, long *year, int *month, int *day,
@@ -325,8 +326,19 @@ long double DLL_FUNC find_nearest_lunar_phase_time(
 {
    const long double phase = (long double)phase_idx * .25;
    const long double k = floorl((t2k - lunar_phase_t0) / lunation - phase + .5) + phase;
+   long double rval = get_phase_time( k, phase_idx);
+   int i;
 
-   return( get_phase_time( k, phase_idx));
+            /* 'k' gives the phase nearest on _average_;  near the middle of a */
+            /* lunation,  the preceding or following one may really be closer  */
+   for( i = -1; i <= 1; i += 2)
+      {
+      const long double t1 = get_phase_time( k + (long double)i, phase_idx);
+
+      if( fabsl( t1 - t2k) < fabsl( rval - t2k))
+         rval = t1;
+      }
+   return( rval);
 }
 
 /* get_time_from_string( ) first (*) checks for four simple types of input:
-- 
2.43.0


From f63536864bf712fec1f7e3391854f4eab620625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:07 +0000
Subject: [PATCH 120/156] fix: integrat -z wrote the last object again when
 there were fewer objects than processes

---
 integrat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/integrat.cpp b/integrat.cpp
index 9c36335..78ab9d6 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -1055,6 +1055,8 @@ int main( int argc, const char **argv)
          j = 0;
          while( j < process_number && fgets( buff, sizeof( buff), ifile))
             j++;
+         if( j < process_number)    /* fewer objects than processes;  */
+            break;                  /* there's nothing left for this one to do */
          }
 #endif
       if( update_file && asteroid_perturber_number == -1
-- 
2.43.0


From 048cf979833c9a26648fe64446ff7b8bbfde725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 121/156] fix: integrat -z reported success, with output cut
 short, when a process died or couldn't be started

---
 integrat.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/integrat.cpp b/integrat.cpp
index 78ab9d6..7bc847d 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -1026,7 +1026,7 @@ int main( int argc, const char **argv)
             if( childpid == -1)      /* fork( ) returns -1 on failure */
                {
                perror( "fork"); /* display error message */
-               exit(0);
+               exit( -1);
                }
             else if( childpid == 0)     /* we're a child process */
                {
@@ -1157,7 +1157,14 @@ int main( int argc, const char **argv)
    if( forking_has_happened)
       {
       printf( "Process %d is done\n", process_number);
-      wait( &child_status); /* wait for child to exit, and store its status */
+                           /* wait for child to exit, and check its status */
+      if( process_number < n_processes - 1)
+         if( wait( &child_status) == -1 || !WIFEXITED( child_status)
+                                        || WEXITSTATUS( child_status))
+            {
+            printf( "Process %d failed;  results are incomplete\n", process_number + 1);
+            return( -1);
+            }
       printf( "Waiting is over for process %d\n", process_number);
       if( !process_number)
          {
-- 
2.43.0


From 2964dce64302a6035684478bb9264abaaa00ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 122/156] fix: integrat -n let each process started with -z
 integrate that many objects

---
 integrat.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/integrat.cpp b/integrat.cpp
index 7bc847d..c7e819f 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -807,6 +807,7 @@ int main( int argc, const char **argv)
    char buff[LINE_SIZE], time_buff[60], header[LINE_SIZE];
    int i, n_integrated = 0, total_asteroids_in_file;
    int max_asteroids = (1 << 30);
+   int n_elsewhere = 0;    /* objects integrated in other processes */
 #ifdef FORKING
    int n_processes = 0, process_number = 0, child_status;
    bool forking_has_happened = false;
@@ -984,7 +985,7 @@ int main( int argc, const char **argv)
 
    t0 = clock( );
    while( !quit && fgets( buff, sizeof( buff), ifile)
-                                 && n_integrated < max_asteroids)
+                     && n_integrated + n_elsewhere < max_asteroids)
       {
       bool got_it_from_update = false;
 
@@ -1053,10 +1054,18 @@ int main( int argc, const char **argv)
          if( update_file)
             update_file = err_fopen( temp_file_name, "rb");
          j = 0;
-         while( j < process_number && fgets( buff, sizeof( buff), ifile))
+         while( j < process_number)
+            {
+            if( try_to_integrate( header, buff, 0., max_err, stepsize) != 0.)
+               n_elsewhere++;
+            if( !fgets( buff, sizeof( buff), ifile))
+               break;
             j++;
+            }
          if( j < process_number)    /* fewer objects than processes;  */
             break;                  /* there's nothing left for this one to do */
+         if( n_integrated + n_elsewhere >= max_asteroids)
+            break;
          }
 #endif
       if( update_file && asteroid_perturber_number == -1
@@ -1143,7 +1152,11 @@ int main( int argc, const char **argv)
          int j = 1;
 
          while( j < n_processes && fgets( buff, sizeof( buff), ifile))
+            {
+            if( try_to_integrate( header, buff, 0., max_err, stepsize) != 0.)
+               n_elsewhere++;
             j++;
+            }
          }
 #endif
       }
-- 
2.43.0


From 6437fa96f3230e3da82e2a4ece271107f197632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:54 +0000
Subject: [PATCH 123/156] fix: integrat -c overran its table for objects whose
 epoch was further off than the first one's

---
 integrat.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/integrat.cpp b/integrat.cpp
index c7e819f..e120de2 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -568,6 +568,8 @@ int integrate_orbit( ELEMENTS *elem, double jd, const double jd_end,
       xyzs = (double *)calloc( 3 * ((size_t)( fabs( jd - jd_end) / stepsize) + 2),
                                  sizeof( double));
       }
+   else if( n_xyzs > 0)
+      memset( xyzs, 0, 3 * n_xyzs * sizeof( double));
    while( jd != jd_end)
       {
       double new_delta[6], jd2;
@@ -605,7 +607,12 @@ int integrate_orbit( ELEMENTS *elem, double jd, const double jd_end,
          printf( "ephem start %f\n", ephem_start);
          }
       if( n_xyzs >= 0)
-         memcpy( xyzs + n_steps * 3, posnvel, 3 * sizeof( double));
+         {              /* objects may start at different epochs */
+         const int idx = (int)ceil( (jd - ephem_start) / ephem_stepsize - 1e-6);
+
+         if( idx >= 0 && (!n_xyzs || idx < n_xyzs))
+            memcpy( xyzs + idx * 3, posnvel, 3 * sizeof( double));
+         }
       n_steps++;
       }
    if( !n_xyzs)
-- 
2.43.0


From f0ff548180e4731c8edc0e47da5d002eb583583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:30 +0000
Subject: [PATCH 124/156] fix: astcheck missed objects east and west of fields
 at high declinations

---
 astcheck.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4d1cf36..0a17f5f 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -765,6 +765,9 @@ int main( const int argc, const char **argv)
          double jd2;
          const int16_t tolerance = (int16_t)
                           ( tolerance_in_arcsec * 65536 / (360. * 3600.));
+                  /* a given distance covers more RA at high declinations */
+         const int ra_tolerance = (cos_dec * 32768. > tolerance + 5 ?
+                           (int)( (tolerance + 5) / cos_dec) : 32768);
          char tbuff[300];
          int n_results = 0;
          int n_checked = 0;
@@ -867,12 +870,10 @@ int main( const int argc, const char **argv)
          n_lines_printed++;
          for( i = 0; i < n_asteroids; i++)
             {
-            const int16_t tolerance2 = tolerance;
-
             assert( day_data[0]);
             assert( day_data[1]);
-            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, tolerance2 + 5))
-               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance2 + 5))
+            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, ra_tolerance))
+               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance + 5))
                   {
                   ELEMENTS class_elem;
                   double ra1, dec1, mag;
-- 
2.43.0


From 82f2ad9f4fc63284841c22f315e820644a10141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 125/156] fix: astcheck missed objects crossing 12h of right
 ascension within a day

---
 astcheck.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index 0a17f5f..3f74c9c 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -405,6 +405,10 @@ static int is_between( int bound1, int bound2, int x, int tolerance)
 
    bound1 -= x;
    bound2 -= x;
+   while( bound2 - bound1 > 32768)
+      bound2 -= 65536;
+   while( bound2 - bound1 < -32768)
+      bound2 += 65536;
    while( bound1 + bound2 < -65536)
       {
       bound1 += 65536;
-- 
2.43.0


From aafe7b0228f77d6aa221a2873b98c75bf39badf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 126/156] fix: astcheck failed for a day whose cached file was
 empty (just created, or left by a killed run)

---
 astcheck.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 3f74c9c..299ac17 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -325,12 +325,10 @@ static AST_DATA *get_cached_day_data( const int ijd)
    ifile = get_file_from_path( filename, "rb");
    if( ifile)
       {
-      if( !fread( header, HEADER_SIZE, sizeof( int), ifile))
-         {
-         printf( "Error reading header data in '%s'\n", filename);
-         exit( -2);
-         }
-      if( header[0] == magic_version_number &&
+            /* The file may be empty,  if it's just been created or if the */
+            /* process creating it was stopped :  treat it as outdated     */
+      if( fread( header, sizeof( int32_t), HEADER_SIZE, ifile) == HEADER_SIZE
+                      && header[0] == magic_version_number &&
                       header[1] == sof_checksum && header[2] == n_asteroids)
          {
          fseek( ifile, 0L, SEEK_END);
-- 
2.43.0


From 1b355dad32d2d6cd84f8278095281b074e80f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:34 +0000
Subject: [PATCH 127/156] fix: astcheck's checksum of the orbits took in only
 sixteen bytes, so stale cached files were used

---
 astcheck.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 299ac17..cf5d27b 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -166,12 +166,17 @@ static FILE *get_sof_file( const char *filename)
       n_asteroids = filelen / record_length - 1;      /* there's a header line */
       for( i = 0; i < 4; i++)
          {
-         const int32_t big_prime = 1234567891;
+         const uint32_t big_prime = 1234567891;
+         size_t n_read;
 
-         fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
-         if( fread( buff, sizeof( buff), 1, ifile))
-            for( j = 0; j < sizeof( buff); j++)
-               sof_checksum = sof_checksum * big_prime + (int32_t)buff[i];
+         if( filelen > (int)sizeof( buff))
+            fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
+         else
+            fseek( ifile, 0L, SEEK_SET);
+         n_read = fread( buff, 1, sizeof( buff), ifile);
+         for( j = 0; j < n_read; j++)
+            sof_checksum = (int32_t)( (uint32_t)sof_checksum * big_prime
+                                    + (uint32_t)(unsigned char)buff[j]);
          }
       fseek( ifile, 0L, SEEK_SET);
       if( verbose)
-- 
2.43.0


From 315eb80beb9ef20c462e8ddd55288a1d939a819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:35 +0000
Subject: [PATCH 128/156] fix: astcheck saw no motion across 0h of right
 ascension, and an infinite one for repeated observations

---
 astcheck.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index cf5d27b..bc75a23 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -467,11 +467,11 @@ static double compute_motion( const char **lines, const int n_lines,
          const double five_degrees = PI / 36.;
 
          if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1)
-                && fabs( jd1 - jd) < 10.   /* within ten days... */
-                && fabs( ra1 - ra) < five_degrees
+                && jd1 != jd && fabs( jd1 - jd) < 10.  /* within ten days... */
+                && fabs( centralize_angle( ra1 - ra)) < five_degrees
                 && fabs( dec1 - dec) < five_degrees)
             {
-            *ra_motion = (ra1 - ra) / (jd1 - jd);
+            *ra_motion = centralize_angle( ra1 - ra) / (jd1 - jd);
             *dec_motion = (dec1 - dec) / (jd1 - jd);
             *ra_motion *= cos( dec);
                      /* cvt radians/day to arcsec/hr: */
-- 
2.43.0


From c7f18fe2108aa3c5417f00c824a1f3540725126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 129/156] fix: add_off read past the end of ADES observation
 times, which it did not terminate

---
 add_off.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 4658aa7..1f73052 100644
--- a/add_off.c
+++ b/add_off.c
@@ -81,8 +81,9 @@ static double get_sat_obs_jd( const char *buff)
       size_t i = 0;
 
       ades_time += 9;
-      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff))
+      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff) - 1)
          tbuff[i++] = *ades_time++;
+      tbuff[i] = '\0';
       jd = get_time_from_string( 0., tbuff, FULL_CTIME_YMD, NULL);
       }
 
-- 
2.43.0


From 8b93b76e80a82b54c2df607b16d1bc4b54723c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:17 +0000
Subject: [PATCH 130/156] fix: add_off gave a zero position to spacecraft
 without an ephemeris, and did not count them as failed

---
 add_off.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/add_off.c b/add_off.c
index 1f73052..075d059 100644
--- a/add_off.c
+++ b/add_off.c
@@ -228,9 +228,12 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       printf( "Either it's not an MPC code,  or it's not one of the spacecraft\n");
       printf( "that this software knows about.  Check the 'add_off.c' source\n");
       printf( "code,  and/or contact the author.\n");
-      for( i = 0; i < n_offsets; i++)
+      for( i = n_offsets - 1; i >= 0; i--)
          if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
-            offsets[i].xyz[0] = -0.1;     /* mark as "don't try again" */
+            {
+            n_positions_failed++;         /* mark as "don't try again" */
+            offsets[i].mpc_code[0] = '\0';
+            }
       return( 0);
       }
 #ifndef _WIN32
@@ -324,7 +327,7 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       }
          /* If some or all obs weren't set,  zero their MPC codes.  That */
          /* will keep us from making repeated failed requests for them.  */
-   for( i--; i > 0; i--)
+   for( i--; i >= 0; i--)
       if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
          if( !offsets[i].xyz[0])
             {
-- 
2.43.0


From eb19e0206407a1574ba0c5aa3f333e8325af83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 131/156] fix: add_off dropped positions it had nothing to
 replace with, and carried a spacecraft's code over to later stations

---
 add_off.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/add_off.c b/add_off.c
index 075d059..42f868b 100644
--- a/add_off.c
+++ b/add_off.c
@@ -71,8 +71,13 @@ static double get_sat_obs_jd( const char *buff)
    const char *ades_time = strstr( buff, "<obsTime>");
    const char *ades_stn = strstr( buff, "<stn>");
 
-   if( ades_stn && get_horizons_idx( ades_stn + 5))
-      memcpy( mpc_code_from_ades, ades_stn + 5, 3);
+   if( ades_stn)
+      {
+      if( get_horizons_idx( ades_stn + 5))
+         memcpy( mpc_code_from_ades, ades_stn + 5, 3);
+      else
+         *mpc_code_from_ades = '\0';
+      }
    if( strlen( buff) > 80 && (buff[14] == 'S' || buff[14] == 's'))
       jd = extract_date_from_mpc_report( buff, NULL);
    if( ades_time && *mpc_code_from_ades)
@@ -364,7 +369,8 @@ may be zero,  one,  or many) were at the various times of the observations.
 
    On a second pass,  it removes any existing 's' (spacecraft
 position) records and replaces them with 's' records created from
-the Horizons ephems.
+the Horizons ephems.  (If Horizons had no position for an observation,
+the existing record,  if any,  is kept.)
 
    For XML ADES,  the process (not yet implemented) will be similar.
 On the first pass,  the code will need to look for the <optical> tag,
@@ -404,6 +410,7 @@ int process_file( const char *filename, FILE *ofile)
    offset_t *offsets = NULL;
    int i, n_offsets = 0;
    bool ades_found = false;
+   char old_posn[2000];
 
    assert( ifile);
    while( fgets( buff, sizeof( buff), ifile))
@@ -452,13 +459,23 @@ int process_file( const char *filename, FILE *ofile)
    if( !ades_found)
       fprintf( ofile, "COM add_off ver 2024 Aug 11,  run %s", ctime( &t0));
    fseek( ifile, 0, SEEK_SET);
+   *mpc_code_from_ades = *old_posn = '\0';
    while( fgets( buff, sizeof( buff), ifile))
       if( (jd = get_sat_obs_jd( buff)) <= 0.)    /* not an observation;  */
          {                                       /* just pass it through */
-         if( !ades_posn_tag( buff))          /* unless it's an ADES posn tag */
+                             /* unless it's an ADES posn tag for an obs     */
+                             /* that may be about to get a new position     */
+         if( *mpc_code_from_ades && ades_posn_tag( buff)
+                     && strlen( old_posn) + strlen( buff) < sizeof( old_posn))
+            strlcat_error( old_posn, buff);
+         else
+            {
+            if( strstr( buff, "<stn>"))
+               *old_posn = '\0';
             fprintf( ofile, "%s", buff);
+            }
          }
-      else if( buff[14] != 's' || *mpc_code_from_ades)
+      else
          {
          int idx = -1;
          char *mpc_code = (*mpc_code_from_ades ? mpc_code_from_ades : buff + 77);
@@ -467,6 +484,14 @@ int process_file( const char *filename, FILE *ofile)
             if( !memcmp( mpc_code, offsets[i].mpc_code, 3)
                        && fabs( jd - offsets[i].jd) < tolerance)
                idx = i;
+         if( idx < 0 && *mpc_code_from_ades)    /* nothing better found : */
+            {                                   /* keep the old position  */
+            fprintf( ofile, "%s", old_posn);
+            *mpc_code_from_ades = '\0';
+            }
+         *old_posn = '\0';
+         if( idx >= 0 && buff[14] == 's' && !*mpc_code_from_ades)
+            continue;            /* old position has been replaced */
          if( idx >= 0)
             {
             if( *mpc_code_from_ades)
-- 
2.43.0


From d9945585208383850ea37ab665610a23215dc47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 132/156] fix: simultaneous runs of add_off overwrote each
 other's downloaded ephemerides

---
 add_off.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/add_off.c b/add_off.c
index 42f868b..4643ad7 100644
--- a/add_off.c
+++ b/add_off.c
@@ -18,6 +18,9 @@ has worked well thus far,  but the above URL could come in handy. */
    #include "windows.h"
 #endif
 #include <errno.h>
+#ifndef _WIN32
+   #include <unistd.h>
+#endif
 #include <stdio.h>
 #include <stdbool.h>
 #include <stdlib.h>
@@ -176,7 +179,7 @@ static int set_mpc_style_offsets( char *buff, const double *xyz)
 
 const char *cmd_start =
 #ifndef _WIN32
-    "curl -s -o /tmp/add_off.txt %s\""
+    "curl -s -o %s %s\""
 #endif
     "https://ssd.jpl.nasa.gov/horizons_batch.cgi?batch=1&COMMAND='%d'"
     "&REF_PLANE='FRAME'"
@@ -224,7 +227,7 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
 #ifdef _WIN32
    const char *outfilename = "add_off.txt";
 #else
-   const char *outfilename = "/tmp/add_off.txt";
+   char outfilename[40];      /* unique,  in case of simultaneous runs */
 #endif
 
    if( !horizons_idx)
@@ -242,7 +245,9 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       return( 0);
       }
 #ifndef _WIN32
-   snprintf_err( buff, sizeof( buff), cmd_start,
+   snprintf_err( outfilename, sizeof( outfilename), "/tmp/add_off%d.txt",
+                                    (int)getpid( ));
+   snprintf_err( buff, sizeof( buff), cmd_start, outfilename,
             (verbose ? "" : "-q "), horizons_idx);
 #else
    snprintf_err( buff, sizeof( buff), cmd_start,
@@ -320,6 +325,9 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
          else if( verbose > 1 || !memcmp( buff, "No ephemeris", 12))
             printf( "%s", buff);
       fclose( ifile);
+#ifndef _WIN32
+      unlink( outfilename);
+#endif
       }
    else
       {
-- 
2.43.0


From e8a1f700b753da1d68bd68e0fc097c78439645a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 133/156] fix: add_off -d aborted when the change in position
 was large

---
 add_off.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 4643ad7..54bbced 100644
--- a/add_off.c
+++ b/add_off.c
@@ -522,7 +522,7 @@ int process_file( const char *filename, FILE *ofile)
                }
             else        /* output punched-card data */
                {
-               char vel_buff[80];
+               char vel_buff[120];
 
                snprintf_err( vel_buff, sizeof( vel_buff),
                         "COM vel (km/s) %.16s%+13.7f%+13.7f%+13.7f %.3s\n",
-- 
2.43.0


From e44f18e78110adad68ea6a019ae9ac74a5ae9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 134/156] fix: astephem divided the phase correction to the
 magnitude, already in magnitudes, by ln 10

---
 astephem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/astephem.cpp b/astephem.cpp
index e6b05c5..dafa6cf 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -63,7 +63,9 @@ static double calc_obs_magnitude( ELEMENTS *elem, const double obj_sun,
                   law_of_cosines( obj_sun, obj_earth, earth_sun);
       const double phase_ang = acose( cos_phase_ang);
 
-      magnitude = 5. * log( obj_sun) + phase_angle_correction_to_magnitude(
+                        /* correction is already in magnitudes */
+      magnitude = 5. * log( obj_sun) + LOG_10 *
+               phase_angle_correction_to_magnitude(
                                    phase_ang, elem->slope_param);
       }
    magnitude += 5. * log( obj_earth);
-- 
2.43.0


From 6d9feb002ae40e0f9b00c50a25660ce7a264d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 135/156] fix: astephem lost the sign of declinations between 0
 and -1 degree, and could print 60 minutes

---
 astephem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index dafa6cf..543ff89 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -113,7 +113,7 @@ int main( const int argc, const char **argv)
    double asteroid_loc[4];
    double t = jan_1970 + (double)( time( NULL) / seconds_per_day);
    int day, month = 0, i, j, n_intervals = 20;
-   long year, ra_sec_tenths;
+   long year, ra_sec_tenths, dec_hundredths;
    ELEMENTS class_elem;
    FILE *ifile = fopen( "astorb.dat", "rb");
    char tbuff[300], object_name[40];
@@ -180,6 +180,7 @@ int main( const int argc, const char **argv)
    for( i = 0; i < n_intervals; i++, t += dt)
       {
       double mag, r1, r2, r3, elong;
+      char dec_degrees[12];
 
                      /* The following function is in EART2000.CPP. */
       get_earth_loc( (t - 2451545.0) / 365250., earth_loc);
@@ -226,13 +227,16 @@ int main( const int argc, const char **argv)
       if( ra < 0.) ra += 360.;
       dec = asin( z / dist) * 180. / PI;
       ra_sec_tenths = (long)(ra * 36000. / 15.);
+      dec_hundredths = (long)( fabs( dec) * 6000. + .5);
+      snprintf_err( dec_degrees, sizeof( dec_degrees), "%s%ld",
+                  (dec < 0. ? "-" : ""), dec_hundredths / 6000L);
                      /* ...and show me the data:  */
       snprintf_err( tbuff, sizeof( tbuff),
-              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3d %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
+              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3s %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
               day, set_month_name( month, NULL), year,
               ra_sec_tenths / 36000L, (ra_sec_tenths / 600L) % 60L,
               (ra_sec_tenths / 10L) % 60L, ra_sec_tenths % 10L,
-              (int)dec, 60. * (fabs( dec) - floor( fabs( dec))), dist,
+              dec_degrees, (double)( dec_hundredths % 6000L) / 100., dist,
               asteroid_loc[3], mag, elong * 180. / PI);
       if( i % 24 == 0)
          printf( "                  RA             dec     dist    radius  mag\n");
-- 
2.43.0


From eb2e2cb19b1c64cd37abfaa9bfc3077efdbc6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 136/156] fix: astephem gave unnumbered objects for numbers
 past the last, and missed half of the designations

---
 astephem.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index 543ff89..e4b9ba1 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -78,12 +78,17 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
 {
    long loc = 0, n_recs, step;
    int n_bytes, ast_number;
+   char name_to_match[40];
 
    if( sscanf( obj_name, "%d%n", &ast_number, &n_bytes) == 1)
       if( obj_name[n_bytes] == '\0')
          {
-         fseek( ifile, (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET);
-         return( fgets( buff, 300, ifile) ? 0 : -1);
+         if( ast_number < 1 || fseek( ifile,
+                  (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET))
+            return( -1);
+                  /* beyond the last numbered object,  we'd get an */
+                  /* unnumbered one,  or nothing */
+         return( fgets( buff, 300, ifile) && atoi( buff) == ast_number ? 0 : -1);
          }
    fseek( ifile, 0L, SEEK_END);
    n_recs = ftell( ifile) / ASTORB_RECORD_LEN;
@@ -95,14 +100,14 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
             return( -2);
          if( buff[5] != ' ' || memcmp( buff + 7, obj_name, 6) < 0)
             loc += step;
-         buff[40] = '\0';
          }
    fseek( ifile, loc * ASTORB_RECORD_LEN, SEEK_SET);
-   strcat( obj_name, " ");
-   while( memcmp( buff + 7, obj_name, strlen( obj_name)))
-      if( !fgets( buff, 300, ifile))
-         return( -1);
-  return( 0);
+   snprintf_err( name_to_match, sizeof( name_to_match), "%-18.18s ", obj_name);
+   while( fgets( buff, 300, ifile))
+      if( strlen( obj_name) <= 18 && strlen( buff) > 40
+               && !memcmp( buff + 7, name_to_match, 19))
+         return( 0);
+   return( -1);
 }
 
 int main( const int argc, const char **argv)
-- 
2.43.0


From 5794e77f3db96b24e762454382ed982e7636c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 137/156] fix: extract_astorb_dat misread inclinations over 100
 degrees and semimajor axes over 1000 AU

---
 mpcorb.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mpcorb.cpp b/mpcorb.cpp
index cabc7d3..8650f6c 100644
--- a/mpcorb.cpp
+++ b/mpcorb.cpp
@@ -122,13 +122,17 @@ long extract_mpcorb_dat( ELEMENTS *elem, const char *buff)
    extract_mpcorb_dat( ) function,  except using 'astorb.dat'-formatted
    data.       */
 
-static long extract_long( const char *ibuff)
+   /* Fields can run together,  with no space between them :  an */
+   /* inclination of 100 degrees or more directly follows the node. */
+
+static long extract_long( const char *ibuff, const size_t width)
 {
-   unsigned long rval = 0;      /* garbage with many digits may overflow */
+   const char *endptr = ibuff + width;
+   unsigned long rval = 0;
 
-   while( *ibuff == ' ')      /* skip leading spaces */
+   while( ibuff < endptr && *ibuff == ' ')      /* skip leading spaces */
       ibuff++;
-   while( *ibuff >= '.' && *ibuff <= '9')
+   while( ibuff < endptr && *ibuff >= '.' && *ibuff <= '9')
       {
       if( *ibuff >= '0')
          rval = rval * 10 + (unsigned long)( *ibuff - '0');
@@ -146,12 +150,12 @@ long extract_astorb_dat( ELEMENTS *elem, const char *buff)
        && sscanf( buff + 41, "%lf %lf", &telem.abs_mag, &telem.slope_param) == 2)
       {
       epoch_jd = atoi( buff + 106);
-      telem.mean_anomaly = (double)extract_long( buff + 115) / 1.e+6;
-      telem.arg_per      = (double)extract_long( buff + 126) / 1.e+6;
-      telem.asc_node     = (double)extract_long( buff + 137) / 1.e+6;
-      telem.incl         = (double)extract_long( buff + 148) / 1.e+6;
-      telem.ecc          = (double)extract_long( buff + 160) / 1.e+8;
-      telem.major_axis = atof( buff + 169);
+      telem.mean_anomaly = (double)extract_long( buff + 115, 10) / 1.e+6;
+      telem.arg_per      = (double)extract_long( buff + 126, 10) / 1.e+6;
+      telem.asc_node     = (double)extract_long( buff + 137, 10) / 1.e+6;
+      telem.incl         = (double)extract_long( buff + 147, 10) / 1.e+6;
+      telem.ecc          = (double)extract_long( buff + 160,  8) / 1.e+8;
+      telem.major_axis = atof( buff + 168);
       epoch_jd = dmy_to_day( epoch_jd % 100L,           /* day */
                              (epoch_jd / 100L) % 100L,  /* month */
                              epoch_jd / 10000L,         /* year */
-- 
2.43.0


From bacbc81bbdd4c84c94c9e71650fb88aedd022344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:30 +0000
Subject: [PATCH 138/156] fix: csv2ades cut the exponent off small correlations

---
 csv2ades.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csv2ades.c b/csv2ades.c
index c6c9dee..26320c9 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -125,7 +125,8 @@ static void csv_to_ades( const char *ibuff, const char *header,
       printf( "    <dec>%.9f</dec>\n",         atof( get_csv( tbuff, ibuff, header, "dec,", 99)));
       printf( "    <rmsRA>%.5f</rmsRA>\n",     atof( get_csv( tbuff, ibuff, header, "ra_error_random,", 99)) / 1000.);
       printf( "    <rmsDec>%.5f</rmsDec>\n",   atof( get_csv( tbuff, ibuff, header, "dec_error_random,", 99)) / 1000.);
-      printf( "    <rmsCorr>%s</rmsCorr>\n", get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 10));
+               /* small correlations are given in exponential form */
+      printf( "    <rmsCorr>%.7f</rmsCorr>\n",  atof( get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 80)));
       printf( "    <astCat>Gaia3</astCat>\n");
       if( strstr( header, "g_mag,"))   /* FPR doesn't have magnitude data */
          {
-- 
2.43.0


From aa450db7bf4b3a85db07a8ada015250669b9e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:31 +0000
Subject: [PATCH 139/156] fix: csv2ades wrote magnitudes too long for the ADES
 reader

---
 csv2ades.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv2ades.c b/csv2ades.c
index 26320c9..d848d99 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -135,7 +135,7 @@ static void csv_to_ades( const char *ibuff, const char *header,
             {
             double g_flux, g_flux_sigma;
 
-            printf( "    <mag>%s</mag>\n", tbuff);
+            printf( "    <mag>%.4f</mag>\n", atof( tbuff));
             g_flux       = atof( get_csv( tbuff, ibuff, header, "g_flux", 99));
             g_flux_sigma = atof( get_csv( tbuff, ibuff, header, "g_flux_error", 99));
             printf( "    <rmsMag>%.3f</rmsMag>\n",
-- 
2.43.0


From f02425fb3f072537d48174aecb3192876822382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:08 +0000
Subject: [PATCH 140/156] fix: xxx2rov cut records short for altitudes of 10 km
 and more

---
 xxx2rov.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxx2rov.c b/xxx2rov.c
index 0aceb52..9316145 100644
--- a/xxx2rov.c
+++ b/xxx2rov.c
@@ -46,7 +46,7 @@ int main( const int argc, const char **argv)
          buff[14] = 'V';
          printf( "%s", buff);
          buff[14] = 'v';
-         sprintf( buff + 32, "1 %9.5f  %+9.5f   %4.0f",
+         sprintf( buff + 32, "1 %9.5f  %+9.5f  %5.0f",
                      cinfo.lon * 180. / PI, cinfo.lat * 180. / PI, cinfo.alt);
          buff[61] = ' ';
          }
-- 
2.43.0


From 008c86abdbf4f3d70ab2df4be1fe86de84b96af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:09 +0000
Subject: [PATCH 141/156] fix: xxx2rov made up a place when none had been given

---
 xxx2rov.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xxx2rov.c b/xxx2rov.c
index 9316145..f30b05e 100644
--- a/xxx2rov.c
+++ b/xxx2rov.c
@@ -42,6 +42,11 @@ int main( const int argc, const char **argv)
          memcpy( buff + 4, "247", 3);
       else if( strlen( buff) > 80 && buff[80] < ' ' && !memcmp( buff + 77, "XXX", 3))
          {
+         if( !cinfo.code[0])
+            {
+            fprintf( stderr, "ERROR : no lat/lon/alt line before\n%s\n", buff);
+            exit( -1);
+            }
          memcpy( buff + 77, "247", 3);
          buff[14] = 'V';
          printf( "%s", buff);
-- 
2.43.0


From 9dafdf11e57eca7112371b69e2952787b61e1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:10 +0000
Subject: [PATCH 142/156] fix: mpc_time decoded identifiers that are too short
 or have invalid characters

---
 mpc_time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpc_time.c b/mpc_time.c
index 556fc8b..673b461 100644
--- a/mpc_time.c
+++ b/mpc_time.c
@@ -78,7 +78,7 @@ static int show_usage( void)
 
 int main( const int argc, const char **argv)
 {
-   const char *id = (argc == 2 ? argv[1] : "            ");
+   const char *id = (argc == 2 && strlen( argv[1]) >= 8 ? argv[1] : "            ");
    const int ymd = get_mutant_hex_value( id, 3);
    const int hms = get_mutant_hex_value( id + 3, 3);
    const int millisec = get_mutant_hex_value( id + 6, 2);
@@ -90,6 +90,11 @@ int main( const int argc, const char **argv)
 
    if( argc != 2)
       return( show_usage( ));
+   if( ymd < 0 || hms < 0 || millisec < 0)
+      {
+      printf( "'%s' doesn't start with eight base-62 digits\n", argv[1]);
+      return( -1);
+      }
    snprintf( buff, sizeof( buff), "%04d-%02d-%02d %02d:%02d:%02d.%03d",
             year, month, day,
             hms / 3600, (hms / 60) % 60, hms % 60,
-- 
2.43.0


From 2cce5225a9aab23a8d8399b03c2b5196e356d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:10 +0000
Subject: [PATCH 143/156] fix: inverse colour functions failed to converge for
 many colours in range

---
 colors.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index f92669e..5a4b39b 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -88,8 +88,13 @@ static double compute_inverse_color_polynomial( const double ival,
       rval = 99.;
    else do
       {
-      rval = (ival - color_low) / ( color_high - color_low);
-      rval += rval * (rval -.5) * (rval - 1.);
+      if( max_iterations & 1)       /* ensure the bracket shrinks from both ends */
+         rval = .5;
+      else
+         {
+         rval = (ival - color_low) / ( color_high - color_low);
+         rval += rval * (rval -.5) * (rval - 1.);
+         }
       rval = low_limit + (high_limit - low_limit) * rval;
       color_rval = compute_color_polynomial( rval, coeffs,
                      ilow_limit, ihigh_limit);
-- 
2.43.0


From 92a880d6baca3414ae37862ee8f2f104dce19b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 144/156] fix: colors out of range gave 100 instead of 99

---
 colors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index 5a4b39b..4bf93a0 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -63,8 +63,8 @@ static double compute_color_polynomial( const double ival,
    int order = COLOR_ORDER;
 
    if( ival < low_limit || ival > high_limit)
-      rval = 99.;
-   else while( order--)
+      return( 99.);
+   while( order--)
       {
       rval += (*coeffs++) * power;
       power *= ival - 1.;
-- 
2.43.0


From 657f54bafd668eaa23b3e6efaaca6db647a715e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 145/156] fix: Tycho colours jumped at B-V = 1.8, the end of
 their range

---
 colors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index 4bf93a0..0fa34fb 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -189,7 +189,7 @@ double johnson_b_minus_v_from_tycho_b_minus_v( const double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
@@ -213,7 +213,7 @@ double johnson_v_from_tycho_b_minus_v( const double b_v_t, const double tycho_v)
       delta = -.005 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = -.005;
-   else if( b_v_t < 1.8)
+   else
       delta = -.005 - .010 * (b_v_t - 1.4) / .4;
    return( tycho_v - .09 * b_v_t + delta);
 }
-- 
2.43.0


From 93b75520d2332eded2ed4f1f3b37c8022c0dfce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:55 +0000
Subject: [PATCH 146/156] fix: colors2's Tycho formula jumped at B-V = 1.8

---
 colors2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colors2.cpp b/colors2.cpp
index bbc2609..3e185c1 100644
--- a/colors2.cpp
+++ b/colors2.cpp
@@ -143,7 +143,7 @@ double johnson_b_minus_v_from_tycho( double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
-- 
2.43.0


From b5a02c0dd4f15c2f86c3481f3955a8fd052f5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:56 +0000
Subject: [PATCH 147/156] fix: marstime showed the last half millisecond of a
 sol as 24:00:00.000

---
 marstime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marstime.cpp b/marstime.cpp
index 6207c0e..74aaeff 100644
--- a/marstime.cpp
+++ b/marstime.cpp
@@ -153,7 +153,8 @@ double mtst_at_airy_to_tt( const double mtst)
 static void format_time( const double day, char *buff)
 {
    const double time_of_day = day - floor( day);
-   const int n_millisec = (int)( time_of_day * 24. * 60. * 60. * 1000. + .5);
+   const int n_millisec = (int)( time_of_day * 24. * 60. * 60. * 1000. + .5)
+                              % (24 * 60 * 60 * 1000);
 
    snprintf_err( buff, 13, "%02d:%02d:%02d.%03d",
             n_millisec / (60 * 60 * 1000),      /* hour */
-- 
2.43.0


From 5e68d06960971154771ca67843182924bdfe1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 148/156] fix: the Moon's transits were sought by azimuth, and
 so were its lower transits wherever it passes north of the zenith

---
 lun_tran.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lun_tran.cpp b/lun_tran.cpp
index 85f5c0d..5b4049b 100644
--- a/lun_tran.cpp
+++ b/lun_tran.cpp
@@ -55,7 +55,7 @@ static double look_for_transit_time( const int planet_no,
       fill_planet_data( &pdata, planet_no, jd,
                           observer_lat, observer_lon, vsop_data);
 
-      delta = atan2( pdata.altaz_loc[1], pdata.altaz_loc[0]);
+      delta = pdata.hour_angle;
       if( !real_transit)
          delta += pi;
       while( delta < -pi)
@@ -64,7 +64,6 @@ static double look_for_transit_time( const int planet_no,
          delta -= pi + pi;
       if( planet_no == 10)       /* moon moves a little faster */
          delta *= 30.5 / 29.5;
-      delta *= sqrt( 1. - pdata.altaz_loc[2] * pdata.altaz_loc[2]);
       jd += delta / (2. * pi);
       }
       while( fabs( delta) > .0001 && iterations--);
-- 
2.43.0


From 91d4735f88865b32a19bb376e7abf3089689b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:00 +0000
Subject: [PATCH 149/156] fix: rise and set times went astray where the Sun or
 Moon barely rises or sets

---
 riseset3.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/riseset3.cpp b/riseset3.cpp
index 5a1d979..d0e6b43 100644
--- a/riseset3.cpp
+++ b/riseset3.cpp
@@ -125,13 +125,10 @@ For the moon,  this altitude is +.125 degrees.
    Anyway,  if we find that the object was below this altitude at one
 hour,  and above it on the next hour,  then it must have risen in the
 interval;  if it was above that altitude,  then below,  it must have
-set.  We do an iterative search to find the instant during that
-hour that it rose or set.  This starts with a guessed rise/set time
-of the particular hour in question.  At each step,  we look at the
-altitude of that object at that time,  and use it to adjust the rise/set
-time based on the assumption that the motion was linear during the hour
-(which isn't a wonderful assumption,  but still usually converges in
-a few iterations.)
+set.  We then find the instant during that hour that it rose or set
+by bisection.  (Assuming the motion to be linear during the hour would
+usually converge in fewer iterations,  but not where the object barely
+rises or sets,  as happens near the polar circles.)
 
    The rise time is stored in rise_set[0].
    The set time is stored in rise_set[1].
@@ -164,17 +161,19 @@ double look_for_rise_set( const int planet_no,
       *is_setting = -1;
    if( *is_setting != -1)
       {
-      double fraction = 0., alt = alt0, delta = 1.;
-      int iterations = 10;
+      double low = 0., high = 1.;
 
-      while( fabs( delta) > .0001 && iterations--)
+      while( high - low > .00001)
          {
-         delta = -alt / (alt1 - alt0);
-         fraction += delta;
+         const double fraction = (low + high) / 2.;
+
          rval = jd0 + (jd1 - jd0) * fraction;
-         fill_planet_data( &pdata, planet_no, jd0 + (jd1 - jd0) * fraction,
+         fill_planet_data( &pdata, planet_no, rval,
                           observer_lat, observer_lon, vsop_data);
-         alt = asin( pdata.altaz_loc[2]) - riseset_alt;
+         if( (asin( pdata.altaz_loc[2]) > riseset_alt) == (alt0 > 0.))
+            low = fraction;
+         else
+            high = fraction;
          }
       }
    return( rval);
-- 
2.43.0


From 53e71221a5be00f848e95273d84f66dd646d1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:39 +0000
Subject: [PATCH 150/156] fix: chinese: an intercalary 12th month is in its own
 year

---
 chinese.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chinese.cpp b/chinese.cpp
index f3e7293..5d44874 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -101,13 +101,15 @@ static void dump_data( char *text[], const int n_found)
          const long jd = atol( text[i]);
          const int prev_month = (month + 10) % 12 + 1;
          const int prev_year = year - (prev_month == 12);
+         const int is_intercalary = (n_found == 25 && !intercalary_month
+                                          && text[i + 1][8] == ' ');
 
          if( jd - prev_jd == 30L)
             if( prev_year >= year0 && prev_year < year0 + n_years)
                ydata[prev_year - year0].mask |= bitmask;
          bitmask <<= 1;
 
-         if( month == 1 && intercalary_month != 1)
+         if( month == 1 && !is_intercalary)
             {           /* it's the for-real first month of the year: */
             const long offset = jd - (year * 365L + year / 4L + 757861L);
 
@@ -116,7 +118,7 @@ static void dump_data( char *text[], const int n_found)
                ydata[year - year0].offset = (unsigned char)offset;
             }
 
-         if( n_found == 25 && !intercalary_month && text[i + 1][8] == ' ')
+         if( is_intercalary)
             {
             snprintf_err( text[i] + 31, 12, "%4di%5d\n", prev_month, prev_year);
             intercalary_month = prev_month;
-- 
2.43.0


From 16149e268b67574077c1b936321bc89e97841e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:40 +0000
Subject: [PATCH 151/156] fix: chinese: ignore lines before the first solstice

---
 chinese.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chinese.cpp b/chinese.cpp
index 5d44874..ee74a34 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -146,7 +146,7 @@ static void dump_data( char *text[], const int n_found)
 int main( const int argc, const char **argv)
 {
    char *buff, *text[30], ibuff[60];
-   int i, n_found = 0;
+   int i, n_found = 0, started = 0;
    FILE *ifile = fopen( argv[1], "rb");
 
    if( !ifile)
@@ -170,11 +170,13 @@ int main( const int argc, const char **argv)
       strcpy( text[n_found], ibuff);
       if( ibuff[33] == '1' && ibuff[34] == '1')
          {
-         if( n_found == 24 || n_found == 25)
+         if( started && (n_found == 24 || n_found == 25))
             dump_data( text, n_found);
          n_found = 0;
+         started = 1;      /* skip anything before the first solstice */
          }
-      strcpy( text[n_found++], ibuff);
+      if( started)
+         strcpy( text[n_found++], ibuff);
       memset( ibuff, 0, 60);
       if( n_found > 25)
          {
-- 
2.43.0


From 2b28e23247e996bf5925eb0be64ceb5f6d669e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:42 +0000
Subject: [PATCH 152/156] fix: dist: solve for the azimuth near the antipodes
 to full precision

---
 dist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index f91f031..a4f1b9b 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -241,7 +241,7 @@ double vincenty_earth_dist( const double lat1, const double lon1,
    double low_lambda = 0., high_lambda = pi;
    double dlon = fmod( lon2 - lon1, 2. * pi);
    const double antipode_tol = 3e-10;  /* corresponds to 2 mm */
-   const double tolerance = 1e-12;     /* corresponds to .006 mm */
+   const double tolerance = 1e-15;     /* azimuths near the antipodes need it */
    double temp1, temp2, temp3;
    double sin_lambda, cos_lambda;
    double sin_o, cos_o, o, cos2_a, cos_2om, big_c;
-- 
2.43.0


From 82348b713d5fe5b271745d1fd1cdeca76600f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:43 +0000
Subject: [PATCH 153/156] fix: dist: Andoyer distance between identical points
 is zero

---
 dist.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dist.cpp b/dist.cpp
index a4f1b9b..0a05535 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -82,6 +82,10 @@ double earth_dist( const double lat1, const double lon1,
    const double cos_lambda2 = cos_lambda * cos_lambda;
    const double s = sin_g2 * cos_lambda2 + cos_f2 * sin_lambda2;
    const double c = cos_g2 * cos_lambda2 + sin_f2 * sin_lambda2;
+
+   if( s == 0.)            /* same point */
+      return( 0.);
+
    const double omega = atan( sqrt( s / c));
    const double r = sqrt( s * c) / omega;
    const double d = 2. * omega;
-- 
2.43.0


From 7a41d7fefe6b00d8c98bffa1f4923becde0d09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:24 +0000
Subject: [PATCH 154/156] fix: dist: last term of Vincenty's series takes the
 middle of the line

---
 dist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index 0a05535..6cf0394 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -365,7 +365,7 @@ double vincenty_earth_dist( const double lat1, const double lon1,
    const double delta_o = big_b * sin_o *
               (cos_2om + (big_b / 4.) * (cos_o * temp3
             - (big_b / 6.) * cos_2om * (-3 + 4 * sin_o * sin_o)
-            * (-3. + 4. * cos_o * cos_o)));
+            * (-3. + 4. * cos_2om * cos_2om)));
    const double rval = b * big_a_poly( usquared) * (o - delta_o);
    if( azimuth)
       {
-- 
2.43.0


From 48914b95aef1a9280e427286509c34708ec80bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:59 +0000
Subject: [PATCH 155/156] fix: mms tests the output file, not the input, after
 opening it

---
 mms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mms.cpp b/mms.cpp
index 1240181..de448ab 100644
--- a/mms.cpp
+++ b/mms.cpp
@@ -79,7 +79,7 @@ int main( const int argc, const char **argv)
    if( argc > 2 && argv[2][0] != '-')
       {
       ofile = fopen( argv[2], "wb");
-      if( !ifile)
+      if( !ofile)
          {
          fprintf( stderr, "Couldn't open '%s' ", argv[2]);
          perror( NULL);
-- 
2.43.0


From 40b3e0f82e6476adcaaff300fb04bed8d11d9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:09 +0000
Subject: [PATCH 156/156] fix: them_cat keeps the old file until the new one is
 whole, and reports a failure to write it

---
 them_cat.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/them_cat.c b/them_cat.c
index 6528264..71ad387 100644
--- a/them_cat.c
+++ b/them_cat.c
@@ -77,13 +77,21 @@ int main( const int argc, const char **argv)
    fclose( old_file);
    while( fgets( buff, sizeof( buff), new_file))
       fputs( buff, temp_file);
-   fclose( temp_file);
+   i = ferror( temp_file);
+   if( fclose( temp_file) || i)
+      {
+      fprintf( stderr, "'%s' is left unchanged : ", argv[1]);
+      perror( "error writing the new version");
+      return( -1);
+      }
    fclose( new_file);
-#ifdef _WIN32
+#ifdef _WIN32           /* elsewhere,  rename( ) replaces the old file */
    _unlink( argv[1]);
-#else
-   unlink( argv[1]);
 #endif
-   rename( "ickywax.ugh", argv[1]);
+   if( rename( "ickywax.ugh", argv[1]))
+      {
+      perror( "'ickywax.ugh' couldn't be renamed");
+      return( -1);
+      }
    return( 0);
 }
-- 
2.43.0

