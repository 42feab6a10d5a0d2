/**
 * MIT License
 *
 * Copyright (c) 2025 Victor Moncada <vtr.moncada@gmail.com>
 *
 * Permission is hereby granted, free of charge, to any person obtaining a copy
 * of this software and associated documentation files (the "Software"), to deal
 * in the Software without restriction, including without limitation the rights
 * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
 * copies of the Software, and to permit persons to whom the Software is
 * furnished to do so, subject to the following conditions:
 *
 * The above copyright notice and this permission notice shall be included in
 * all copies or substantial portions of the Software.
 *
 * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
 * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
 * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
 * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
 * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
 * OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 * SOFTWARE.
 */

#ifndef STENOS_REDUCED_UNSHUFFLE_TABLE_H
#define STENOS_REDUCED_UNSHUFFLE_TABLE_H

#include "../bits.hpp"

namespace stenos
{
	namespace detail
	{
		// Reduced table for simd based RLE compression
		static STENOS_ALWAYS_INLINE const std::uint64_t* get_reduced_unshuffle_table() noexcept
		{
			static const std::uint64_t reduced_unshuffle_table[] = { 506097522914230528ull,
										 506097522914230528ull,
										 433757350076153856ull,
										 433757350076153856ull,
										 433757350076154112ull,
										 433757350076154112ull,
										 361417177238077440ull,
										 361417177238077440ull,
										 433757350076219648ull,
										 433757350076219648ull,
										 361417177238142976ull,
										 361417177238142976ull,
										 361417177238143232ull,
										 361417177238143232ull,
										 289077004400066560ull,
										 289077004400066560ull,
										 433757350092996864ull,
										 433757350092996864ull,
										 361417177254920192ull,
										 361417177254920192ull,
										 361417177254920448ull,
										 361417177254920448ull,
										 289077004416843776ull,
										 289077004416843776ull,
										 361417177254985984ull,
										 361417177254985984ull,
										 289077004416909312ull,
										 289077004416909312ull,
										 289077004416909568ull,
										 289077004416909568ull,
										 216736831578832896ull,
										 216736831578832896ull,
										 433757354387964160ull,
										 433757354387964160ull,
										 361417181549887488ull,
										 361417181549887488ull,
										 361417181549887744ull,
										 361417181549887744ull,
										 289077008711811072ull,
										 289077008711811072ull,
										 361417181549953280ull,
										 361417181549953280ull,
										 289077008711876608ull,
										 289077008711876608ull,
										 289077008711876864ull,
										 289077008711876864ull,
										 216736835873800192ull,
										 216736835873800192ull,
										 361417181566730496ull,
										 361417181566730496ull,
										 289077008728653824ull,
										 289077008728653824ull,
										 289077008728654080ull,
										 289077008728654080ull,
										 216736835890577408ull,
										 216736835890577408ull,
										 289077008728719616ull,
										 289077008728719616ull,
										 216736835890642944ull,
										 216736835890642944ull,
										 216736835890643200ull,
										 216736835890643200ull,
										 144396663052566528ull,
										 144396663052566528ull,
										 433758453899591936ull,
										 433758453899591936ull,
										 361418281061515264ull,
										 361418281061515264ull,
										 361418281061515520ull,
										 361418281061515520ull,
										 289078108223438848ull,
										 289078108223438848ull,
										 361418281061581056ull,
										 361418281061581056ull,
										 289078108223504384ull,
										 289078108223504384ull,
										 289078108223504640ull,
										 289078108223504640ull,
										 216737935385427968ull,
										 216737935385427968ull,
										 361418281078358272ull,
										 361418281078358272ull,
										 289078108240281600ull,
										 289078108240281600ull,
										 289078108240281856ull,
										 289078108240281856ull,
										 216737935402205184ull,
										 216737935402205184ull,
										 289078108240347392ull,
										 289078108240347392ull,
										 216737935402270720ull,
										 216737935402270720ull,
										 216737935402270976ull,
										 216737935402270976ull,
										 144397762564194304ull,
										 144397762564194304ull,
										 361418285373325568ull,
										 361418285373325568ull,
										 289078112535248896ull,
										 289078112535248896ull,
										 289078112535249152ull,
										 289078112535249152ull,
										 216737939697172480ull,
										 216737939697172480ull,
										 289078112535314688ull,
										 289078112535314688ull,
										 216737939697238016ull,
										 216737939697238016ull,
										 216737939697238272ull,
										 216737939697238272ull,
										 144397766859161600ull,
										 144397766859161600ull,
										 289078112552091904ull,
										 289078112552091904ull,
										 216737939714015232ull,
										 216737939714015232ull,
										 216737939714015488ull,
										 216737939714015488ull,
										 144397766875938816ull,
										 144397766875938816ull,
										 216737939714081024ull,
										 216737939714081024ull,
										 144397766876004352ull,
										 144397766876004352ull,
										 144397766876004608ull,
										 144397766876004608ull,
										 72057594037927936ull,
										 72057594037927936ull,
										 434039928876302592ull,
										 434039928876302592ull,
										 361699756038225920ull,
										 361699756038225920ull,
										 361699756038226176ull,
										 361699756038226176ull,
										 289359583200149504ull,
										 289359583200149504ull,
										 361699756038291712ull,
										 361699756038291712ull,
										 289359583200215040ull,
										 289359583200215040ull,
										 289359583200215296ull,
										 289359583200215296ull,
										 217019410362138624ull,
										 217019410362138624ull,
										 361699756055068928ull,
										 361699756055068928ull,
										 289359583216992256ull,
										 289359583216992256ull,
										 289359583216992512ull,
										 289359583216992512ull,
										 217019410378915840ull,
										 217019410378915840ull,
										 289359583217058048ull,
										 289359583217058048ull,
										 217019410378981376ull,
										 217019410378981376ull,
										 217019410378981632ull,
										 217019410378981632ull,
										 144679237540904960ull,
										 144679237540904960ull,
										 361699760350036224ull,
										 361699760350036224ull,
										 289359587511959552ull,
										 289359587511959552ull,
										 289359587511959808ull,
										 289359587511959808ull,
										 217019414673883136ull,
										 217019414673883136ull,
										 289359587512025344ull,
										 289359587512025344ull,
										 217019414673948672ull,
										 217019414673948672ull,
										 217019414673948928ull,
										 217019414673948928ull,
										 144679241835872256ull,
										 144679241835872256ull,
										 289359587528802560ull,
										 289359587528802560ull,
										 217019414690725888ull,
										 217019414690725888ull,
										 217019414690726144ull,
										 217019414690726144ull,
										 144679241852649472ull,
										 144679241852649472ull,
										 217019414690791680ull,
										 217019414690791680ull,
										 144679241852715008ull,
										 144679241852715008ull,
										 144679241852715264ull,
										 144679241852715264ull,
										 72339069014638592ull,
										 72339069014638592ull,
										 361700859861664000ull,
										 361700859861664000ull,
										 289360687023587328ull,
										 289360687023587328ull,
										 289360687023587584ull,
										 289360687023587584ull,
										 217020514185510912ull,
										 217020514185510912ull,
										 289360687023653120ull,
										 289360687023653120ull,
										 217020514185576448ull,
										 217020514185576448ull,
										 217020514185576704ull,
										 217020514185576704ull,
										 144680341347500032ull,
										 144680341347500032ull,
										 289360687040430336ull,
										 289360687040430336ull,
										 217020514202353664ull,
										 217020514202353664ull,
										 217020514202353920ull,
										 217020514202353920ull,
										 144680341364277248ull,
										 144680341364277248ull,
										 217020514202419456ull,
										 217020514202419456ull,
										 144680341364342784ull,
										 144680341364342784ull,
										 144680341364343040ull,
										 144680341364343040ull,
										 72340168526266368ull,
										 72340168526266368ull,
										 289360691335397632ull,
										 289360691335397632ull,
										 217020518497320960ull,
										 217020518497320960ull,
										 217020518497321216ull,
										 217020518497321216ull,
										 144680345659244544ull,
										 144680345659244544ull,
										 217020518497386752ull,
										 217020518497386752ull,
										 144680345659310080ull,
										 144680345659310080ull,
										 144680345659310336ull,
										 144680345659310336ull,
										 72340172821233664ull,
										 72340172821233664ull,
										 217020518514163968ull,
										 217020518514163968ull,
										 144680345676087296ull,
										 144680345676087296ull,
										 144680345676087552ull,
										 144680345676087552ull,
										 72340172838010880ull,
										 72340172838010880ull,
										 144680345676153088ull,
										 144680345676153088ull,
										 72340172838076416ull,
										 72340172838076416ull,
										 72340172838076672ull,
										 72340172838076672ull,
										 0ull,
										 0ull };
			return reduced_unshuffle_table;
		}
	}

}

#endif
