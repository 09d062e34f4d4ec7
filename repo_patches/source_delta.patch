From a549efbaa53d9ceae5e1a659a1834f055b784197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 01/80] fix: count only bonds above threshold in
 calculate_frenkel_numbers (dangling else)

---
 src/pyscal/system.cpp | 5196 +++++++++++++++++++++--------------------
 1 file changed, 2599 insertions(+), 2597 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..c87adb5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1,2597 +1,2599 @@
-#include "system.h"
-#include <iostream>
-#include <iomanip>
-#include <algorithm>
-#include <stdio.h>
-#include "voro++.hh"
-#include "string.h"
-#include <chrono>
-#include <pybind11/stl.h>
-
-using namespace voro;
-
-//-----------------------------------------------------
-// Constructor, Destructor and Access functions
-//-----------------------------------------------------
-System::System(){
-
-    nop = 0;
-    ghost_nop = 0;
-    real_nop = 0;
-    triclinic = 0;
-    usecells = 0;
-    filter = 0;
-    maxclusterid = -1;
-    
-    alpha = 1;
-    voronoiused = 0;
-    solidq = 6;
-    criteria = 0;
-    comparecriteria = 0;
-    
-    neighbordistance = 0;
-
-    //set box with zeros
-    for(int i=0; i<3; i++){
-        for(int j=0; j<3; j++){
-            box[i][j] = 0.0;
-        }
-    }
-
-}
-
-System::~System(){
-}
-
-//-----------------------------------------------------
-// Simulation box related methods
-//-----------------------------------------------------
-void System::assign_triclinic_params(vector<vector<double>> drot, vector<vector<double>> drotinv){
-
-    for(int i=0; i<3; i++){
-        for(int j=0; j<3; j++){
-            rot[i][j] = drot[i][j];
-            rotinv[i][j] = drotinv[i][j];
-        }
-    }
-
-    triclinic = 1;
-}
-
-vector<vector<double>> System::get_triclinic_params(){
-
-    vector<vector<double>> drot;
-    vector<double> dummydrot;
-    for(int i=0; i<3; i++){
-        dummydrot.clear();
-        for(int j=0; j<3; j++){
-            dummydrot.emplace_back(rot[i][j]);
-        }
-        drot.emplace_back(dummydrot);
-    }
-    return drot;
-}
-
-void System::sbox(vector<vector <double>> boxd) {
-
-    //this method will be redone to get a 3x3 box
-    //always. They will be then translated to the
-    //corresponding other boxes
-    double isum;
-
-    for(int i=0; i<3; i++){
-        isum = 0;
-        for(int j=0; j<3; j++){
-            box[i][j] = boxd[i][j];
-            isum += boxd[i][j]*boxd[i][j];
-        }
-        boxdims[i][0] = 0;
-        boxdims[i][1] = sqrt(isum);
-
-    }
-
-    boxx = boxdims[0][1] - boxdims[0][0];
-    boxy = boxdims[1][1] - boxdims[1][0];
-    boxz = boxdims[2][1] - boxdims[2][0];
-}
-
-vector<vector<double>> System::gbox(){
-    vector<vector<double>> qres;
-    vector<double> qd;
-
-    for(int i=0;i<3;i++){
-        qd.clear();
-        for(int j=0;j<3;j++){
-            qd.emplace_back(box[i][j]);
-        }
-        qres.emplace_back(qd);
-    }
-    return qres;
-}
-
-
-//-----------------------------------------------------
-// Atom related methods
-//-----------------------------------------------------
-//this function allows for handling custom formats of atoms and so on
-void System::set_atoms( vector<Atom> atomitos){
-
-    atoms.clear();
-    nop = atomitos.size();
-    atoms.reserve(nop);
-    atoms.assign(atomitos.begin(), atomitos.end());
-
-    //now assign ghost and real atoms
-    int tg = 0;
-    int tl = 0;
-
-    for(int i=0; i<nop; i++){
-        if(atoms[i].ghost==0){
-            tl++;
-        }
-        else{
-            tg++;
-        }
-    }
-
-    ghost_nop = tg;
-    real_nop = tl;
-    //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
-    //cout<<nop<<endl;
-
-}
-
-
-//this function allows for handling custom formats of atoms and so on
-vector<Atom> System::get_atoms( ){
-    //here, we have to filter ghost atoms
-    vector<Atom> retatoms;
-    for(int i=0; i<real_nop; i++){
-        retatoms.emplace_back(atoms[i]);
-    }
-    return retatoms;
-
-}
-
-void System::add_atoms(vector<Atom> atomitos){
-
-    
-
-    //check for ghost atoms
-    int tg = 0;
-    int tl = 0;
-
-    for(int i=0; i<atomitos.size(); i++){
-        if(atomitos[i].ghost==0){
-            tl++;
-        }
-        else{
-            tg++;
-        }
-    }
-
-    //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
-        }
-    }
-    else if (ghost_nop>0){
-        //now the atoms need to be reordered
-        vector<Atom> real_atoms;
-        vector<Atom> ghost_atoms;        
-        
-        for(int i=0; i<nop; i++){
-            if(atoms[i].ghost==0){
-                real_atoms.emplace_back(atoms[i]);
-            }
-            else{
-                ghost_atoms.emplace_back(atoms[i]);
-            }
-        }
-        //now also add new atoms to the list
-        for (int i=0; i<atomitos.size(); i++){
-            if(atomitos[i].ghost==0){
-                real_atoms.emplace_back(atomitos[i]);
-            }
-            else{
-                ghost_atoms.emplace_back(atomitos[i]);
-            }            
-        }
-        //now put them all in the big list
-        atoms.clear();
-
-        for(int i=0; i<real_atoms.size(); i++){
-            atoms.emplace_back(real_atoms[i]);
-        }
-        for(int i=0; i<ghost_atoms.size(); i++){
-            atoms.emplace_back(ghost_atoms[i]);
-        }
-
-        //we can clear now
-        real_atoms.clear();
-        ghost_atoms.clear();
-    }
-
-    //update 
-    ghost_nop = ghost_nop + tg;
-    real_nop = real_nop + tl;
-    nop = nop + atomitos.size();
-}
-
-
-vector<Atom> System::get_all_atoms( ){
-    //here, we have to filter ghost atoms
-    vector<Atom> retatoms;
-    for(int i=0; i<nop; i++){
-        retatoms.emplace_back(atoms[i]);
-    }
-    return retatoms;
-
-}
-
-Atom System::gatom(int i) { return atoms[i]; }
-void System::satom(Atom atom1) {
-    int idd = atom1.loc;
-    atoms[idd] = atom1;
-}
-
-//----------------------------------------------------
-// Neighbor methods
-//----------------------------------------------------
-
-double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
-
-    double abs, ax, ay, az;
-    diffx = atoms[tj].posx - atoms[ti].posx;
-    diffy = atoms[tj].posy - atoms[ti].posy;
-    diffz = atoms[tj].posz - atoms[ti].posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-        //finally distance
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-
-    }
-    else{
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-    }
-    return abs;
-}
-
-//function for binding
-double System::get_abs_distance(Atom atom1 , Atom atom2 ){
-
-    double abs, ax, ay, az;
-    double diffx = atom1.posx - atom2.posx;
-    double diffy = atom1.posy - atom2.posy;
-    double diffz = atom1.posz - atom2.posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-        //finally distance
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-
-    }
-    else{
-
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-    }
-
-    return abs;
-}
-
-//function for binding
-vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
-
-    double ax, ay, az;
-    double diffx = atom1.posx - atom2.posx;
-    double diffy = atom1.posy - atom2.posy;
-    double diffz = atom1.posz - atom2.posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-      double dummy;
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-    }
-    else{
-
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-    }
-
-    vector<double> abs;
-    abs.emplace_back(diffx);
-    abs.emplace_back(diffy);
-    abs.emplace_back(diffz);
-
-    return abs;
-}
-
-
-void System::reset_all_neighbors(){
-    for (int ti = 0;ti<nop;ti++){
-
-        atoms[ti].n_neighbors=0;
-        atoms[ti].temp_neighbors.clear();
-        atoms[ti].condition = 0;
-
-        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
-
-            atoms[ti].neighbors[tn] = NILVALUE;
-            atoms[ti].neighbordist[tn] = -1.0;
-        }
-    }
-}
-
-void System::reset_main_neighbors(){
-    for (int ti = 0;ti<nop;ti++){
-
-        atoms[ti].n_neighbors=0;
-        atoms[ti].condition = 0;
-        //atoms[ti].temp_neighbors.clear();
-
-        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
-
-            atoms[ti].neighbors[tn] = NILVALUE;
-            atoms[ti].neighbordist[tn] = -1.0;
-        }
-    }
-}
-
-
-vector<double> System::get_pairdistances(){
-
-    vector<double> res;
-    double d;
-    double diffx,diffy,diffz;
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            res.emplace_back(d);
-
-        }
-    }
-    return res;
-}
-
-//function to create cell lists
-//snmall function that returns cell index when provided with cx, cy, cz
-int System::cell_index(int cx, int cy, int cz){
-    return cx*ny*nz + cy*nz + cz;
-}
-
-
-//if number of particles are small, use brute force
-//if box is triclinic, use brute force
-void System::set_up_cells(){
-
-      int si,sj,sk, maincell, subcell;
-      vector<int> cc;
-      //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
-      //now use this to find length of cell in each direction
-      double lx = boxx/nx;
-      double ly = boxy/ny;
-      double lz = boxz/nz;
-      //find the total number of cells
-      total_cells = nx*ny*nz;
-      //create a vector of cells
-      cells = new cell[total_cells];
-      //now run over and for each cell create its neighbor cells
-      //all neighbor cells are also added
-      for(int i=0; i<nx; i++){
-         for(int j=0; j<ny; j++){
-           for(int k=0; k<nz; k++){
-              maincell = cell_index(i, j, k);
-              for(int si=i-1; si<=i+1; si++){
-                  for(int sj=j-1; sj<=j+1; sj++){
-                      for(int sk=k-1; sk<=k+1; sk++){
-                         cc = cell_periodic(si, sj, sk);
-                         subcell = cell_index(cc[0], cc[1], cc[2]);
-                         //add this to the list of neighbors
-                         cells[maincell].neighbor_cells.emplace_back(subcell);
-
-                      }
-                  }
-              }
-           }
-         }
-      }
-      int cx, cy, cz;
-      double dx, dy, dz;
-      double ddx, ddy, ddz;
-      int ind;
-
-      //now loop over all atoms and assign cells
-      for(int ti=0; ti<nop; ti++){
-
-          //calculate c indices for the atom
-          dx = atoms[ti].posx;
-          dy = atoms[ti].posy;
-          dz = atoms[ti].posz;
-          
-          //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
-
-          //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
-
-          //now get cell index
-          ind = cell_index(cx, cy, cz);
-          //got cell index
-          //now add the atom to the corresponding cells
-          cells[ind].members.emplace_back(ti);
-
-      }
-      //end of loop - all cells, the member atoms and neighboring cells are added
-}
-
-vector<double> System::remap_atom(vector<double> pos){
-    //remap atom position into the box
-    //now apply boxdims
-    double dx = pos[0];
-    double dy = pos[1];
-    double dz = pos[2];
-    double ax, ay, az;
-
-    if (triclinic == 1){
-        //convert to the triclinic system
-        ax = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
-        ay = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
-        az = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
-
-        //scale to match the triclinic box size
-        dx = ax*boxx;
-        dy = ay*boxy;
-        dz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        dx = dx/boxx;
-        dy = dy/boxy;
-        dz = dz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*dx + rot[0][1]*dy + rot[0][2]*dz;
-        ay = rot[1][0]*dx + rot[1][1]*dy + rot[1][2]*dz;
-        az = rot[2][0]*dx + rot[2][1]*dy + rot[2][2]*dz;
-
-        //now assign to diffs and calculate distnace
-        dx = ax;
-        dy = ay;
-        dz = az;
-    }
-    else{
-        if (dx < 0) dx+=boxx;
-        else if (dx >= boxx) dx-=boxx;
-        if (dy < 0) dy+=boxy;
-        else if (dy >= boxy) dy-=boxy;
-        if (dz < 0) dz+=boxz;
-        else if (dz >= boxz) dz-=boxz;
-    }
-    vector<double> rpos;
-    rpos.emplace_back(dx);
-    rpos.emplace_back(dy);
-    rpos.emplace_back(dz);
-    return rpos;
-
-}
-
-vector<int> System::cell_periodic(int i, int j, int k){
-    vector<int> ci;
-    //apply periodic conditions
-    if (i<0) i = i + nx;
-    else if (i>nx-1) i = i -nx;
-    ci.emplace_back(i);
-    if (j<0) j = j + ny;
-    else if (j>ny-1) j = j -ny;
-    ci.emplace_back(j);
-    if (k<0) k = k + nz;
-    else if (k>nz-1) k = k -nz;
-    ci.emplace_back(k);
-    return ci;
-
-}
-
-//get all neighbor info but using cell lists
-void System::get_all_neighbors_cells(){
-
-    voronoiused = 0;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int ti, tj;
-    //first create cells
-    set_up_cells();
-    int maincell, subcell;
-
-    //now loop to find distance
-    for(int i=0; i<total_cells; i++){
-        //now go over the neighbor cells
-        //for each member in cell i
-        for(int mi=0; mi<cells[i].members.size(); mi++){
-            //now go through the neighbors
-            ti = cells[i].members[mi];
-            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
-               //loop through members of j
-               subcell = cells[i].neighbor_cells[j];
-               for(int mj=0; mj<cells[subcell].members.size(); mj++){
-                  //now we have mj -> members/compare with
-                  tj = cells[subcell].members[mj];
-                  //compare ti and tj and add
-                  if (ti < tj){
-                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                      if (d < neighbordistance){
-
-                        if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                            continue;
-                        }
-                        else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                            continue;
-                        }
-                        //process_neighbor(ti, tj);
-                        atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                        atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-                        //weight is set to 1.0, unless manually reset
-                        atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                        atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                        atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                        atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                        convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                        atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                        atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                        atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                        atoms[ti].n_neighbors += 1;
-                        atoms[ti].cutoff = neighbordistance;
-
-                        atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
-                        atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
-                        //weight is set to 1.0, unless manually reset
-                        atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
-                        atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
-                        atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
-                        atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
-                        convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
-                        atoms[tj].n_r[atoms[tj].n_neighbors] = r;
-                        atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
-                        atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
-                        atoms[tj].n_neighbors +=1;
-                        atoms[tj].cutoff = neighbordistance;
-                      }
-                  }
-               }
-
-            }
-
-        }
-    }
-
-
-}
-
-
-
-void System::get_all_neighbors_normal(){
-
-
-    //reset voronoi flag
-    voronoiused = 0;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            if (d < neighbordistance){
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                    continue;
-                }
-                //process_neighbor(ti, tj);
-                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = neighbordistance;
-
-                atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
-                atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
-                atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
-                atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
-                atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
-                convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
-                atoms[tj].n_r[atoms[tj].n_neighbors] = r;
-                atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
-                atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
-                atoms[tj].n_neighbors +=1;
-                atoms[tj].cutoff = neighbordistance;
-            }
-        }
-
-    }
-
-
-}
-
-void System::process_neighbor(int ti, int tj){
-    /*
-    Calculate all info and add it to list
-    ti - loc of host atom
-    tj - loc of the neighbor
-     d - interatomic distance
-     */
-
-    double d, diffx, diffy, diffz;
-    double r, phi, theta;
-
-    d = get_abs_distance(ti, tj, diffx,diffy,diffz);
-
-    atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-    atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-    //weight is set to 1.0, unless manually reset
-    atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-    atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-    atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-    atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-    convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-    atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-    atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-    atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-    atoms[ti].n_neighbors += 1;
-
-}
-
-/*
-To increase the speed of the other methods, we need some functions using cells and
-otheriwse which adds atoms to the temp_neighbors list
-*/
-void System::get_temp_neighbors_brute(){
-
-    //reset voronoi flag
-
-    double d;
-    double diffx,diffy,diffz;
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            if (d <= neighbordistance){
-                datom x = {d, tj};
-                atoms[ti].temp_neighbors.emplace_back(x);
-                datom y = {d, ti};
-                atoms[tj].temp_neighbors.emplace_back(y);
-            }
-        }
-    }
-
-}
-
-/*
-Cells should only be used when the system has a minimum size - in this case,
-about 2000 atoms.
-*/
-void System::get_temp_neighbors_cells(){
-
-    //first create cells
-    set_up_cells();
-
-    int maincell, subcell;
-    int ti, tj;
-    double d;
-    double diffx,diffy,diffz;
-
-    //now loop to find distance
-    for(int i=0; i<total_cells; i++){
-        //now go over the neighbor cells
-        //for each member in cell i
-        for(int mi=0; mi<cells[i].members.size(); mi++){
-            //now go through the neighbors
-            ti = cells[i].members[mi];
-            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
-               //loop through members of j
-               subcell = cells[i].neighbor_cells[j];
-               for(int mj=0; mj<cells[subcell].members.size(); mj++){
-                  //now we have mj -> members/compare with
-                  tj = cells[subcell].members[mj];
-                  //compare ti and tj and add
-                  if (ti < tj){
-                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                      if (d < neighbordistance){
-                        datom x = {d, tj};
-                        atoms[ti].temp_neighbors.emplace_back(x);
-                        datom y = {d, ti};
-                        atoms[tj].temp_neighbors.emplace_back(y);
-                      }
-                  }
-               }
-
-            }
-
-        }
-    }
-
-}
-int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom. But ONLY TEMP neighbors
-    */
-
-    //reset voronoi flag
-    voronoiused = 0;
-    
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-    finished = 1;
-
-    vector<int> nids;
-    vector<double> dists, sorted_dists;
-
-        //double prefactor = 1.21;
-    double summ;
-    double boxvol;
-
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-    //now find the volume per particle
-    double guessvol = boxvol/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        if(assign == 1){
-            //assign the neighbors
-            for(int i=0; i<nns; i++){
-                int tj = atoms[ti].temp_neighbors[i].index;
-                process_neighbor(ti, tj);
-            }
-        }
-
-        finished = 1;            
-    }
-
-
-    return finished;
-
-
-}
-
-void System::set_atom_cutoff(double factor){
-    /*
-    Reassign atom cutoff
-    */
-    int nn;
-    double sum;
-    double avgdist;
-
-    for (int ti=0; ti<nop; ti++){
-        nn = atoms[ti].n_neighbors;
-        sum = 0;
-        for (int j=0; j<nn; j++){
-            sum += atoms[ti].neighbordist[j];
-        }
-        avgdist = sum/(double(nn));
-        atoms[ti].cutoff = factor*avgdist;
-    }
-}
-
-int System::get_neighbors_from_temp(int style){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom.
-    */
-
-    int finished = 1;
-    //reset neighbors
-    reset_main_neighbors();
-
-    if (style == 12){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 11){
-                double ssum = 0;
-                for(int i=0 ; i<12; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                //process sum
-                atoms[ti].lcutsmall = 1.2071*ssum/12;
-                //now assign neighbors based on this
-                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    double dist = atoms[ti].temp_neighbors[i].dist;
-                    if (dist <= atoms[ti].lcutsmall)
-                        process_neighbor(ti, tj);
-                }
-                finished = 1;                                  
-            }
-            else{
-                return 0;
-            }
-        }
-    }
-    else if (style == 14){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 13){
-                double ssum = 0;
-                for(int i=0 ; i<8; i++){
-                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
-                }
-                for(int i=8 ; i<14; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                atoms[ti].lcutlarge = 1.2071*ssum/14;
-                //now assign neighbors based on this
-                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    double dist = atoms[ti].temp_neighbors[i].dist;
-                    if (dist <= atoms[ti].lcutlarge)
-                        process_neighbor(ti, tj);
-                }
-                finished = 1;                                  
-            }
-            else{
-                return 0;
-            }
-        }
-    }
-
-
-    return finished;
-
-
-}
-
-
-void System::store_neighbor_info(){
-    /*
-    Method to assign neighbors and next nearest neighbors
-
-    */    
-    int nn;
-
-    for (int ti=0; ti<nop; ti++){
-
-        atoms[ti].next_neighbors.clear();
-        atoms[ti].next_neighbor_distances.clear();
-        atoms[ti].next_neighbor_counts.clear();
-        
-        atoms[ti].next_neighbors.resize(atoms[ti].n_neighbors);
-        atoms[ti].next_neighbor_distances.resize(atoms[ti].n_neighbors);
-        atoms[ti].next_neighbor_counts.resize(atoms[ti].n_neighbors);
-
-        for(int i=0; i<atoms[ti].n_neighbors; i++){
-            nn = atoms[ti].neighbors[i];
-            atoms[ti].next_neighbor_counts[i] = atoms[nn].n_neighbors;
-            for(int j=0; j<atoms[nn].n_neighbors; j++){
-                atoms[ti].next_neighbors[i].emplace_back(atoms[nn].neighbors[j]);
-                atoms[ti].next_neighbor_distances[i].emplace_back(atoms[nn].neighbordist[j]);
-            }
-        }
-    }
-}
-
-
-
-
-int System::get_all_neighbors_sann(double prefactor){
-    /*
-    A new adaptive algorithm. Similar to the old ones, we guess a basic distance with padding,
-    and sort them up.
-    After that, we use the algorithm by in J. Chem. Phys. 136, 234107 (2012) to find the list of
-    neighbors.
-     */
-
-    //reset voronoi flag
-    voronoiused = 0;
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-    finished = 1;
-
-    vector<int> nids;
-    vector<double> dists, sorted_dists;
-
-    //double prefactor = 1.21;
-    double summ;
-    double boxvol;
-
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-
-    //now find the volume per particle
-    double guessvol = boxvol/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].temp_neighbors.size() < 3){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        //start with initial routine
-        m = 3;
-        summ = 0;
-        for(int i=0 ; i<m; i++){
-            summ += atoms[ti].temp_neighbors[i].dist;
-            int tj = atoms[ti].temp_neighbors[i].index;
-            process_neighbor(ti, tj);
-        }
-
-        //find cutoff
-        dcut = summ/float(m-2);
-        maxneighs = atoms[ti].temp_neighbors.size();
-
-        while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
-            //increase m
-            m = m+1;
-
-            //here now we can add this to the list neighbors and process things
-            int tj = atoms[ti].temp_neighbors[m].index;
-            process_neighbor(ti, tj);
-
-            //find new dcut
-            summ = summ + atoms[ti].temp_neighbors[m].dist;
-            dcut = summ/float(m-2);
-            atoms[ti].cutoff = dcut;
-        }
-
-        //find if there was an error
-        if (m==maxneighs){
-            finished = 0;
-            break;
-        }
-        else{
-            finished = 1;
-        }
-
-    }
-
-
-    return finished;
-
-
-}
-
-
-
-int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-
-    double summ;
-    double boxvol;
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-    //now find the volume per particle
-    double guessvol = boxvol/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    //introduce cell lists here - instead of looping over all neighbors
-    //use cells
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-
-    //end of callstructural competition
-    //subatoms would now be populated
-    //now starts the main loop
-    for (int ti=0; ti<nop; ti++){
-        //check if its zero size
-        if (atoms[ti].temp_neighbors.size() < nlimit){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        summ = 0;
-        for(int i=0; i<nlimit; i++){
-            summ += atoms[ti].temp_neighbors[i].dist;
-        }
-        dcut = padding*(1.0/float(nlimit))*summ;
-
-        //now we are ready to loop over again, but over the lists
-        for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
-            int tj = atoms[ti].temp_neighbors[j].index;
-            if (atoms[ti].temp_neighbors[j].dist < dcut){
-
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                    continue;
-                }
-                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = dcut;
-
-            }
-        }
-
-    }
-
-
-    return 1;
-
-}
-
-void System::set_neighbordistance(double nn) { neighbordistance = nn; }
-
-
-//---------------------------------------------------
-// Methods for q calculation
-//---------------------------------------------------
-double System::dfactorial(int l,int m){
-
-    double fac = 1.00;
-    for(int i=0;i<2*m;i++){
-        fac*=double(l+m-i);
-    }
-    return (1.00/fac);
-}
-
-void System::set_reqd_qs(vector <int> qs){
-
-    lenqs = qs.size();
-    reqdqs = new int[lenqs];
-    for(int i=0;i<lenqs;i++){
-        reqdqs[i] = qs[i];
-    }
-
-    rq_backup = qs;
-}
-
-
-void System::set_reqd_aqs(vector <int> qs){
-
-    lenaqs = qs.size();
-    reqdaqs = new int[lenaqs];
-    for(int i=0;i<lenaqs;i++){
-        for(int j=0;j<lenqs;j++){
-            if(qs[i]==reqdqs[j]) { reqdaqs[i] = qs[i]; }
-        }
-    }
-    //only qvlaues in the normal set will be included in the aq list
-    //check here if its in the qlist
-    //cout<<"corresponding q value should also be set."<<endl;
-
-}
-
-double System::PLM(int l, int m, double x){
-
-    double fact,pll,pmm,pmmp1,somx2;
-    int i,ll;
-    pll = 0.0;
-    if (m < 0 || m > l || fabs(x) > 1.0)
-        cerr << "impossible combination of l and m" << "\n";
-    pmm=1.0;
-    if (m > 0){
-        somx2=sqrt((1.0-x)*(1.0+x));
-        fact=1.0;
-        for (i=1;i<=m;i++){
-            pmm *= -fact*somx2;
-            fact += 2.0;
-        }
-    }
-
-    if (l == m)
-        return pmm;
-    else{
-        pmmp1=x*(2*m+1)*pmm;
-        if (l == (m+1))
-            return pmmp1;
-        else{
-            for (ll=m+2;ll<=l;ll++){
-            pll=(x*(2*ll-1)*pmmp1-(ll+m-1)*pmm)/(ll-m);
-            pmm=pmmp1;
-            pmmp1=pll;
-            }
-        return pll;
-        }
-    }
-}
-
-void System::convert_to_spherical_coordinates(double x, double y, double z, double &r, double &phi, double &theta){
-    r = sqrt(x*x+y*y+z*z);
-    theta = acos(z/r);
-    phi = atan2(y,x);
-}
-
-
-void System::YLM(int l, int m, double theta, double phi, double &realYLM, double &imgYLM){
-
-    double factor;
-    double m_PLM;
-    m_PLM = PLM(l,m,cos(theta));
-    factor = ((2.0*double(l) + 1.0)/ (4.0*PI))*dfactorial(l,m);
-    realYLM = sqrt(factor) * m_PLM * cos(double(m)*phi);
-    imgYLM  = sqrt(factor) * m_PLM * sin(double(m)*phi);
-}
-
-
-void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &imgYLM ){
-
-    realYLM = 0.0;
-    imgYLM = 0.0;
-    if (m < 0) {
-        YLM(l, abs(m), theta, phi, realYLM, imgYLM);
-        realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
-    }
-    else{
-        YLM(l, m, theta, phi, realYLM, imgYLM);
-    }
-}
-
-void System::calculate_complexQLM_6(){
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    double realYLM,imgYLM;
-
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-        for (int mi = -6;mi < 7;mi++){
-
-            realti = 0.0;
-            imgti = 0.0;
-            for (int ci = 0;ci<nn;ci++){
-
-                QLM(6,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
-                realti += atoms[ti].neighborweight[ci]*realYLM;
-                imgti += atoms[ti].neighborweight[ci]*imgYLM;
-            }
-
-            realti = realti/(double(nn));
-            imgti = imgti/(double(nn));
-            atoms[ti].realq[4][mi+6] = realti;
-            atoms[ti].imgq[4][mi+6] = imgti;
-        }
-    }
-}
-
-//calculation of any complex qval
-void System::calculate_q(vector <int> qs){
-
-    //set_reqd_qs(qs);
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    double realYLM,imgYLM;
-    int q;
-    double summ;
-
-    //first make space in atoms for the number of qs needed - assign with null values
-    /*
-    for(int ti=0;ti<nop;ti++){
-        for(int tj=0;tj<11;tj++){
-
-            atoms[ti].q[tj] = -1;
-            atoms[ti].aq[tj] = -1;
-            for(int tk=0;tk<25;tk++){
-                atoms[ti].realq[tj][tk] = 0;
-                atoms[ti].imgq[tj][tk] = 0;
-                atoms[ti].arealq[tj][tk] = 0;
-                atoms[ti].aimgq[tj][tk] = 0;
-            }
-        }
-    }
-    */
-
-    //note that the qvals will be in -2 pos
-    //q2 will be in q0 pos and so on
-    double weightsum;
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-        //for(int tq=0;tq<lenqs;tq++){
-        for(int tq=0;tq<qs.size();tq++){
-            //find which q?
-            q = qs[tq];
-            //cout<<q<<endl;
-            summ = 0;
-            for (int mi = -q;mi < q+1;mi++){
-                realti = 0.0;
-                imgti = 0.0;
-                weightsum = 0;
-                for (int ci = 0;ci<nn;ci++){
-                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
-                    QLM(q,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
-                    realti += atoms[ti].neighborweight[ci]*realYLM;
-                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
-                    weightsum += atoms[ti].neighborweight[ci];
-                }
-
-            //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
-
-
-            atoms[ti].realq[q-2][mi+q] = realti;
-            atoms[ti].imgq[q-2][mi+q] = imgti;
-
-            summ+= realti*realti + imgti*imgti;
-            //summ+= realti;
-            }
-            //normalise summ
-            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
-            atoms[ti].q[q-2] = summ;
-
-        }
-
-    }
-
-}
-
-
-//calculation of any complex aqvalb
-void System::calculate_aq(vector <int> qs){
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    //double realYLM,imgYLM;
-    int q;
-    double summ;
-    int nns;
-
-    //if (!qsfound) { calculate_q(qs); }
-    //note that the qvals will be in -2 pos
-    //q2 will be in q0 pos and so on
-
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-
-        for(int tq=0;tq<qs.size();tq++){
-            //find which q?
-            q = qs[tq];
-            //cout<<q<<endl;
-            summ = 0;
-            for (int mi = 0;mi < 2*q+1;mi++){
-                realti = atoms[ti].realq[q-2][mi];
-                imgti = atoms[ti].imgq[q-2][mi];
-                nns = 0;
-                for (int ci = 0;ci<nn;ci++){
-                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
-                    realti += atoms[atoms[ti].neighbors[ci]].realq[q-2][mi];
-                    imgti += atoms[atoms[ti].neighbors[ci]].imgq[q-2][mi];
-                    nns += 1;
-                }
-
-            //realti = realti/weightsum;
-            //imgti = realti/weightsum;
-
-            realti = realti/(double(nns+1));
-            imgti = imgti/(double(nns+1));
-
-            atoms[ti].arealq[q-2][mi] = realti;
-            atoms[ti].aimgq[q-2][mi] = imgti;
-
-            summ+= realti*realti + imgti*imgti;
-            }
-            //normalise summ
-            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
-            atoms[ti].aq[q-2] = summ;
-
-        }
-
-    }
-}
-
-vector<double> System::gqvals(int qq){
-    vector<double> qres;
-    qres.reserve(real_nop);
-    for(int i=0;i<real_nop;i++){
-        qres.emplace_back(atoms[i].q[qq-2]);
-    }
-
-    return qres;
-}
-
-vector<double> System::gaqvals(int qq){
-    vector<double> qres;
-    qres.reserve(real_nop);
-    for(int i=0;i<real_nop;i++){
-        qres.emplace_back(atoms[i].aq[qq-2]);
-    }
-
-    return qres;
-}
-
-void System::calculate_disorder(){
-
-    //for disorder we need sjj which is dot product with itself, self dot prouct of neighbors
-    //and cross dot product
-    double sumSquareti,sumSquaretj;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    double dis;
-
-    for(int ti=0; ti<nop; ti++){
-
-        sumSquareti = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
-
-        for (int mi = 0;mi < 2*solidq+1 ;mi++){
-            sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-            realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi];
-            imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-        }
-        connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquareti)*sqrt(sumSquareti));
-        atoms[ti].sii = connection;
-
-    }
-
-    //first round is over
-    //now find cross terms
-    for(int ti=0; ti<nop; ti++){
-
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
-        dis = 0;
-
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-            for (int mi = 0;mi < 2*solidq+1 ;mi++){
-                sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-                sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-                realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
-                imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-            }
-            connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-            dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
-        }
-        atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
-
-    }
-}
-
-void System::find_average_disorder(){
-    double vv;
-    int nn;
-
-    for (int ti= 0;ti<nop;ti++){
-        nn = atoms[ti].n_neighbors;
-        vv = atoms[ti].disorder;
-        for (int ci = 0; ci<nn; ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].disorder;
-        }
-        vv = vv/(double(nn+1));
-        atoms[ti].avgdisorder = vv;
-    }
-}
-//-----------------------------------------------------
-// Solids and Clustering methods
-//-----------------------------------------------------
-//also has to be overloaded - could be a useful function
-double System::get_number_from_bond(int ti,int tj){
-
-    double sumSquareti,sumSquaretj;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    sumSquareti = 0.0;
-    sumSquaretj = 0.0;
-    realdotproduct = 0.0;
-    imgdotproduct = 0.0;
-
-    for (int mi = 0;mi < 2*solidq+1 ;mi++){
-
-        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-        sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-        realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
-        imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-    }
-
-    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-    //cout<<connection<<endl;
-    return connection;
-}
-
-//overloaded version
-double System::get_number_from_bond(Atom atom1,Atom atom2){
-
-    double sumSquareti,sumSquaretj;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    sumSquareti = 0.0;
-    sumSquaretj = 0.0;
-    realdotproduct = 0.0;
-    imgdotproduct = 0.0;
-
-    for (int mi = 0;mi < 2*solidq+1 ;mi++){
-
-        sumSquareti += atom1.realq[solidq-2][mi]*atom1.realq[solidq-2][mi] + atom1.imgq[solidq-2][mi] *atom1.imgq[solidq-2][mi];
-        sumSquaretj += atom2.realq[solidq-2][mi]*atom2.realq[solidq-2][mi] + atom2.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
-        realdotproduct += atom1.realq[solidq-2][mi]*atom2.realq[solidq-2][mi];
-        imgdotproduct  += atom1.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
-    }
-
-    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-    return connection;
-}
-
-void System::calculate_frenkel_numbers(){
-
-    int frenkelcons;
-    double scalar;
-
-    for (int ti= 0;ti<nop;ti++){
-
-        frenkelcons = 0;
-        atoms[ti].avq6q6 = 0.0;
-        for (int c = 0;c<atoms[ti].n_neighbors;c++){
-
-            scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
-            atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
-                if (scalar > threshold) frenkelcons += 1;
-            else
-                if (scalar < threshold) frenkelcons += 1;
-            
-            atoms[ti].avq6q6 += scalar;
-        }
-
-        atoms[ti].frenkelnumber = frenkelcons;
-        atoms[ti].avq6q6 /= atoms[ti].n_neighbors;
-
-    }
-}
-
-
-void System::find_solid_atoms(){
-
-    int tfrac;
-    if (criteria == 0){
-        for (int ti= 0;ti<nop;ti++){
-          if (comparecriteria == 0)
-            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 > avgthreshold) );
-          else
-            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 < avgthreshold) );
-        }
-    }
-    else if (criteria == 1){
-        for (int ti= 0;ti<nop;ti++){
-            tfrac = ((atoms[ti].frenkelnumber/double(atoms[ti].n_neighbors)) > minfrenkel);
-            if (comparecriteria == 0)
-                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 > avgthreshold));
-            else
-                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 < avgthreshold));
-        }
-    }
-
-}
-
-
-void System::find_clusters(double clustercutoff){
-        //Clustering methods should only run over real atoms
-        if (clustercutoff != 0){
-          for(int ti=0; ti<real_nop;ti++){
-              atoms[ti].cutoff = clustercutoff;
-          }
-        }
-        for(int ti=0; ti<real_nop;ti++){
-            atoms[ti].belongsto = -1;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++){
-
-            if (!atoms[ti].condition) continue;
-            if (atoms[ti].ghost) continue;
-
-            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
-            for (int c = 0;c<atoms[ti].n_neighbors;c++){
-
-                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
-                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
-                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
-                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
-                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
-                }
-                else{
-                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
-                }
-            }
-        }
-}
-
-//we have to test with a recursive algorithm - to match the values that is presented
-//in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
-
-    int neigh;
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
-        if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
-        if (atoms[neigh].belongsto==-1){
-            atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
-        }
-    }
-}
-
-void System::find_clusters_recursive(double clustercutoff){
-
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
-    }
-  }
-
-    int clusterindex;
-    clusterindex = 0;
-
-    //reset belongsto indices
-    for(int ti=0; ti<real_nop;ti++){
-        atoms[ti].belongsto = -1;
-    }
-
-    for (int ti= 0;ti<real_nop;ti++){
-        if (!atoms[ti].condition) continue;
-        if (atoms[ti].ghost) continue;
-        if (atoms[ti].belongsto==-1){
-            clusterindex += 1;
-            atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
-        }
-
-    }
-}
-
-
-
-int System::largest_cluster(){
-
-        int *freq = new int[nop];
-        for(int ti=0;ti<real_nop;ti++){
-            freq[ti] = 0;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++)
-        {
-            if (atoms[ti].belongsto==-1) continue;
-            freq[atoms[ti].belongsto-1]++;
-        }
-
-        int max=0;
-        for (int ti= 0;ti<real_nop;ti++)
-        {
-            if (freq[ti]>max){
-                max=freq[ti];
-                maxclusterid = ti+1;
-            }
-
-        }
-
-        get_largest_cluster_atoms();
-
-        return max;
-}
-
-void System::get_largest_cluster_atoms(){
-        for(int ti=0; ti<real_nop; ti++){
-            atoms[ti].issurface = 1;
-            atoms[ti].lcluster = 0;
-            //if its in same cluster as max cluster assign it as one
-            if(atoms[ti].belongsto == maxclusterid){
-                atoms[ti].lcluster = 1;
-            }
-           //if its solid- identfy if it has liquid
-            if(atoms[ti].issolid == 1){
-                atoms[ti].issurface = 0;
-                for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
-                        atoms[ti].issurface = 1;
-                        break;
-                    }
-                }
-            }
-        }
-}
-
-void System::set_nucsize_parameters(double n1, double n2, double n3 ) { minfrenkel = n1; threshold = n2; avgthreshold = n3; }
-
-//-----------------------------------------------------
-// Voronoi based methods
-//-----------------------------------------------------
-void System::set_face_cutoff(double fcut){
-    face_cutoff = fcut;
-}
-
-//overloaded function; would be called
-//if neighbor method voronoi is selected.
-void System::get_all_neighbors_voronoi(){
-
-    //reset voronoi flag
-    voronoiused = 1;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int i;
-    int ti,id,tnx,tny,tnz, nverts;
-
-    double rx,ry,rz,tsum, fa, x, y, z, vol;
-    vector<int> neigh,f_vert, vert_nos;
-    vector<double> facearea, v, faceperimeters;
-    voronoicell_neighbor c;
-    vector< vector<double> > nweights;
-    vector< vector<int> > nneighs;
-    vector<int> idss;
-    //vector<int> nvector;
-    double weightsum;
-    vector <double> pos;
-
-    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
-    for(int i=0; i<nop; i++){
-        pos = atoms[i].gx();
-        pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
-    }
-    pcon.guess_optimal(tnx,tny,tnz);
-    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
-    pcon.setup(con);
-
-    c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
-            ti=cl.pid();
-            c.face_areas(facearea);
-            c.neighbors(neigh);
-            c.face_orders(f_vert);
-            c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
-            c.face_perimeters(faceperimeters);
-
-            vol = c.volume();
-            tsum = 0;
-            vector <double> dummyweights;
-            vector <int> dummyneighs;
-
-            //only loop over neighbors
-            weightsum = 0.0;
-            for (int i=0; i<facearea.size(); i++){
-                weightsum += pow(facearea[i], alpha);
-            }
-
-
-            //assign to nvector
-            atoms[ti].volume = vol;
-            atoms[ti].vertex_vectors = v;
-            atoms[ti].vertex_numbers = vert_nos;
-            atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
-            
-            //clean up and add vertex positions
-            nverts = int(v.size())/3;
-            pos = atoms[ti].gx();
-            for(int si=0; si<nverts; si++){
-                vector<double> temp;
-                int li=0;
-                for(int vi=si*3; vi<(si*3+3); vi++){
-                    temp.emplace_back(v[vi]+pos[li]);
-                    li++;
-                }
-                atoms[ti].vertex_positions.emplace_back(temp);
-            }
-
-            //assign to the atom
-            //atoms[ti].vorovector = nvector;
-
-            //only loop over neighbors
-            //weightsum = 0.0;
-            //for (int i=0; i<facearea.size(); i++){
-            //    weightsum += facearea[i];
-            //}
-            for (int tj=0; tj<neigh.size(); tj++){
-
-                //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                    continue;
-                }
-                atoms[ti].neighbors[tj] = neigh[tj];
-                atoms[ti].n_neighbors += 1;
-                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
-
-            }
-
-    } while (cl.inc());
-
-
-    //now calculate the averged volume
-    find_average_volume();
-
-
-}
-
-
-void System::find_average_volume(){
-    double vv;
-    int nn;
-
-    for (int ti= 0;ti<nop;ti++){
-        nn = atoms[ti].n_neighbors;
-        vv = atoms[ti].volume;
-        for (int ci = 0;ci<nn;ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].volume;
-        }
-        vv = vv/(double(nn+1));
-        atoms[ti].avgvolume = vv;
-    }
-}
-
-//-------------------------------------------------------
-// CNA parameters
-//-------------------------------------------------------
-void System::get_diamond_neighbors(){
-    /*
-    Get the neighbors in diamond lattice which is part of the
-    underlying fcc cell.
-
-    Also store the first and second nearest neighbors for
-    latest identification.
-    */
-    reset_main_neighbors();
-    for (int ti=0; ti<nop; ti++){
-        //cout<<"ti = "<<ti<<endl;
-        //start loop
-        for(int j=0 ; j<4; j++){
-            int tj = atoms[ti].temp_neighbors[j].index;
-            //cout<<"tj = "<<tj<<endl;
-            //loop over the neighbors
-            atoms[ti].nn1[j] = tj;
-            for(int k=0 ; k<4; k++){
-                int tk = atoms[tj].temp_neighbors[k].index;
-                //cout<<"tk = "<<tk<<endl;
-                //now make sure its not the same atom
-                if (ti == tk) continue;
-                //process the neighbors
-                process_neighbor(ti, tk);
-            }
-        }
-    }
-}
-
-void System::get_cna_neighbors(int style){
-    /*
-    Get neighbors for CNA method
-    There are two styles available:
-    
-    Style 1: For FCC like structures (HCP/ICO)
-    Style 2: For BCC structure    
-    */
-    int finished = 1;
-    reset_main_neighbors();
-    double factor, dist;
-    int ncount;
-
-    if (style == 1){
-        factor = 0.854;
-        ncount = 12;
-    }
-    else if (style == 2){
-        factor = 1.207;
-        ncount = 14;
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        atoms[ti].cutoff = factor*lattice_constant;
-        for(int i=0 ; i<ncount; i++){
-            int tj = atoms[ti].temp_neighbors[i].index;
-            //dist = atoms[ti].temp_neighbors[i].dist;
-            //if (dist <= atoms[ti].cutoff)
-            process_neighbor(ti, tj);
-        }
-    }
-}
-
-void System::get_acna_neighbors(int style){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom.
-    There are two styles available:
-    
-    Style 1: For FCC like structures (HCP/ICO)
-    Style 2: For BCC structure
-    */
-
-    double dist;
-
-    //reset neighbors
-    reset_main_neighbors();
-
-    if (style == 1){ 
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 11){
-                double ssum = 0;
-                for(int i=0 ; i<12; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                //process sum
-                atoms[ti].cutoff = 1.207*ssum/12.00;
-                //now assign neighbors based on this
-                for(int i=0 ; i<12; i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    dist = atoms[ti].temp_neighbors[i].dist;
-                    //if (dist <= atoms[ti].cutoff)
-                    process_neighbor(ti, tj);
-                }                                 
-            }
-        }
-    }
-    else if (style == 2){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 13){
-                double ssum = 0;
-                for(int i=0 ; i<8; i++){
-                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
-                }
-                for(int i=8 ; i<14; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                atoms[ti].cutoff = 1.207*ssum/14.00;
-                //now assign neighbors based on this
-                for(int i=0 ; i<14; i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    dist = atoms[ti].temp_neighbors[i].dist;
-                    //if (dist <= atoms[ti].cutoff)
-                    process_neighbor(ti, tj);
-                }                                 
-            }
-        }
-    }
-}
-
-void System::get_common_neighbors(int ti){
-    /*
-    Get common neighbors between an atom and its neighbors
-    */
-    int m, n;
-    double d, dx, dy, dz;
-
-    //we have to rest a couple of things first
-    //cna vector
-    //also common array
-    atoms[ti].cna.clear();
-    atoms[ti].cna.resize(atoms[ti].n_neighbors);
-    atoms[ti].common.clear();
-    atoms[ti].common.resize(atoms[ti].n_neighbors);
-
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        for(int j=0; j<4; j++){
-            atoms[ti].cna[i].emplace_back(0);
-        }
-    }
-    
-    //now start loop
-    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
-        m = atoms[ti].neighbors[i];
-        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
-            n = atoms[ti].neighbors[j];
-            d = get_abs_distance(m, n, dx, dy, dz);
-            if (d <= atoms[ti].cutoff){
-                atoms[ti].cna[i][0]++;
-                atoms[ti].common[i].emplace_back(n);
-                atoms[ti].cna[j][0]++;
-                atoms[ti].common[j].emplace_back(m);
-            }
-        }
-    }
-}
-
-
-void System::get_common_bonds(int ti){
-    /*
-    Last two steps for CNA analysis
-    */
-    int c1, c2, maxbonds, minbonds;
-    double d, dx, dy, dz;
-
-    //first we clear the bonds array
-    atoms[ti].bonds.clear();
-    atoms[ti].bonds.resize(atoms[ti].n_neighbors);
-
-    //start loop
-    for(int k=0; k<atoms[ti].n_neighbors; k++){
-        //clear bonds first
-        for(int l=0; l<atoms[ti].cna[k][0]; l++){
-            atoms[ti].bonds[k].emplace_back(0);
-        }
-        //now start proper loop
-        for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
-            for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
-                c1 = atoms[ti].common[k][l];
-                c2 = atoms[ti].common[k][m];
-                d = get_abs_distance(c1, c2, dx, dy, dz);
-                if(d <= atoms[ti].cutoff){
-                    atoms[ti].cna[k][1]++;
-                    atoms[ti].bonds[k][l]++;
-                    atoms[ti].bonds[k][m]++;
-                }
-            }
-        }
-        maxbonds = 0;
-        minbonds = 8;
-        for(int l=0; l<atoms[ti].cna[k][0]; l++){
-            maxbonds = max(atoms[ti].bonds[k][l], maxbonds);
-            minbonds = min(atoms[ti].bonds[k][l], minbonds);
-        }
-        atoms[ti].cna[k][2] = maxbonds;
-        atoms[ti].cna[k][3] = minbonds;    
-    }
-}
-
-void System::identify_cn12(){
-
-    int c1, c2, c3, c4;
-    int nfcc, nhcp, nico;
-
-    //now we start
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure==0){
-            get_common_neighbors(ti);
-            get_common_bonds(ti);
-
-            //now assign structure if possible
-            nfcc = 0;
-            nhcp = 0;
-            nico = 0;
-            for(int k=0; k<atoms[ti].n_neighbors; k++){
-                c1 = atoms[ti].cna[k][0];
-                c2 = atoms[ti].cna[k][1];
-                c3 = atoms[ti].cna[k][2];
-                c4 = atoms[ti].cna[k][3];
-
-                if((c1==4) && (c2==2) && (c3==1) && (c4==1)){
-                    nfcc++;
-                }
-                else if ((c1==4) && (c2==2) && (c3==2) && (c4==0)){
-                    nhcp++;
-                }
-                else if ((c1==5) && (c2==5) && (c3==2) && (c4==2)){
-                    nico++;
-                }
-
-            }
-            if(nfcc==12){
-                atoms[ti].structure = 1;
-            }
-            else if((nfcc==6) && (nhcp==6)){
-                atoms[ti].structure = 2;   
-            }
-            else if (nico==12){
-                atoms[ti].structure = 4;   
-            }
-        }
-    }
-}
-
-void System::identify_cn14(){
-    
-    int c1, c2, c3, c4;
-    int nbcc1, nbcc2;
-
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure==0){
-            get_common_neighbors(ti);
-            get_common_bonds(ti);
-
-            //now assign structure if possible
-            nbcc1 = 0;
-            nbcc2 = 0;
-            for(int k=0; k<atoms[ti].n_neighbors; k++){
-                c1 = atoms[ti].cna[k][0];
-                c2 = atoms[ti].cna[k][1];
-                c3 = atoms[ti].cna[k][2];
-                c4 = atoms[ti].cna[k][3];
-
-                if((c1==4) && (c2==4) && (c3==2) && (c4==2)){
-                    nbcc1++;
-                }
-                else if ((c1==6) && (c2==6) && (c3==2) && (c4==2)){
-                    nbcc2++;
-                }
-            }
-            if((nbcc1==6) && (nbcc2==8)){
-                atoms[ti].structure = 3;   
-            }
-        }
-    }    
-}
-
-vector<int> System::identify_diamond_structure(){
-    /*
-    Calculate diamond structure
-
-    Assign structure numbers
-    ------------------------
-    5 : Cubic diamond (CD)
-    6 : 1NN of CD
-    7 : 2NN of CD
-    8 : Hexagonal diamond (HD)
-    9 : 1NN of HD
-    10: 2NN of HD
-    */
-    //first get lump neighbors
-    vector<int> analyis;
-    for(int i=0; i<11; i++){
-        analyis.emplace_back(0);
-    }
-
-
-    for(int i=0; i<nop; i++){
-        atoms[i].structure = 0;
-    }
-
-    identify_cndia();
-    //gather results
-    for(int ti=0; ti<real_nop; ti++){
-        analyis[atoms[ti].structure] += 1;
-    }
-
-    return analyis;
-
-}
-
-void System::identify_cndia(){
-    /*
-    Identify diamond structure
-
-    Assign structure numbers
-    ------------------------
-    5 : Cubic diamond (CD)
-    6 : 1NN of CD
-    7 : 2NN of CD
-    8 : Hexagonal diamond (HD)
-    9 : 1NN of HD
-    10: 2NN of HD
-    */
-    //now get diamond neighbors
-    get_diamond_neighbors();
-
-    //calculate cutoffs
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].n_neighbors > 11){
-            double ssum = 0;
-            for(int i=0 ; i<12; i++){
-                ssum += atoms[ti].neighbordist[i];
-            }
-            //process sum
-            atoms[ti].cutoff = 1.207*ssum/12.00;
-            //now assign neighbors based on this
-        }
-    }
-
-    //now calculate cna signature for each atom and assign
-    //structures - but only check 12 signature
-    identify_cn12();
-    int n;
-    //now for each atom
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure == 1){
-            atoms[ti].structure = 5;
-        }
-        else if(atoms[ti].structure == 2){
-            atoms[ti].structure = 8;
-        }
-    }
-    //second pass
-    for(int ti=0; ti<nop; ti++){
-        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8)){
-            for(int i=0; i<4; i++){
-                n = atoms[ti].nn1[i];
-                if(atoms[n].structure == 5){
-                    atoms[ti].structure = 6;
-                    break;
-                }
-                else if (atoms[n].structure == 8){
-                    atoms[ti].structure = 9;
-                    break;
-                }
-            }
-        }
-    }
-
-    for(int ti=0; ti<nop; ti++){
-        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8) && (atoms[ti].structure != 6) && (atoms[ti].structure != 9)){
-            for(int i=0; i<atoms[ti].n_neighbors; i++){
-                n = atoms[ti].neighbors[i];
-                if(atoms[n].structure == 5){
-                    atoms[ti].structure = 7;
-                    break;
-                }
-                else if (atoms[n].structure == 8){
-                    atoms[ti].structure = 10;
-                    break;
-                }
-            }
-        }
-    }
-}
-
-vector<int> System::calculate_cna(int method){
-    /*
-    Calculate CNA or ACNA
-    
-    Args
-    ----
-    method : 1 if CNA
-             2 if ACNA
-    */
-
-    //create array for result
-    vector<int> analyis;
-    for(int i=0; i<5; i++){
-        analyis.emplace_back(0);
-    }
-
-    //assign structures to 0
-    for(int i=0; i<nop; i++){
-        atoms[i].structure = 0;
-    }
-    
-    //first get lump neighbors
-    //neighbor method is same
-    get_all_neighbors_bynumber(3, 14, 0);
-
-    //first we start by checking for 12 CN 
-    //CNA method
-    if(method==1){
-        get_cna_neighbors(1);
-    }
-    //ACNA method
-    else if (method==2){
-        get_acna_neighbors(1);
-    }
-
-    //call here
-    identify_cn12();
-
-    //now we start by checking for 14 CN 
-    //CNA method
-    if(method==1){
-        get_cna_neighbors(2);
-    }
-    //ACNA method
-    else if (method==2){
-        get_acna_neighbors(2);
-    }
-
-    //call here
-    identify_cn14();
-
-    //gather results
-    for(int ti=0; ti<real_nop; ti++){
-        analyis[atoms[ti].structure] += 1;
-    }
-
-    return analyis;
-}
-//-------------------------------------------------------
-// Other order parameters
-//-------------------------------------------------------
-
-//Methods for entropy
-double System::switching_fn(double rij, double ra, int M, int N){
-
-    double num = 1.0 - pow((rij/ra), N);
-    double denum = 1.0 - pow((rij/ra), M);
-    return num/denum;
-}
-
-void System::average_entropy(){
-    double entsum;
-    for(int i=0; i<nop; i++){
-        entsum = atoms[i].entropy;
-        for(int j=0; j<atoms[i].n_neighbors; j++){
-            entsum += atoms[atoms[i].neighbors[j]].entropy;
-        }
-        atoms[i].avg_entropy = entsum/(double(atoms[i].n_neighbors + 1));
-    }
-}
-
-void System::average_entropy_switch(double ra, int M, int N){
-
-    double frij;
-    double frijsum = 0.0;
-    double entfrijsum = 0.0;
-
-    for(int i=0; i<nop; i++){
-        
-        frijsum = 0.0;
-        entfrijsum = 0.0;
-
-        for(int j=0; j<atoms[i].n_neighbors; j++){
-            frij = switching_fn(atoms[i].neighbordist[j], ra, M, N);
-            frijsum += frij;
-            entfrijsum += atoms[atoms[i].neighbors[j]].entropy*frij;
-        }
-
-        atoms[i].avg_entropy = (entfrijsum + atoms[i].entropy)/(frijsum + 1.0);
-    }
-}
-
-
-void System::entropy(double sigma, double rho, double rstart, double rstop, double h, double kb){
-
-    for(int i=0; i<nop; i++){
-        
-        atoms[i].sigma = sigma;
-        if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
-        }
-        atoms[i].rho = rho;
-        atoms[i].rstart = rstart;
-        atoms[i].rstop = rstop;
-        atoms[i].h = h;
-        atoms[i].kb = kb;
-
-        atoms[i].trapezoid_integration();
-    }
-}
-
-
-void System::calculate_centrosymmetry_atom(int ti, int nmax){
-    /*
-    Calculate centrosymmetry parameter
-    */
-    //loop over neighbors
-    
-    double d, dx, dy, dz, weight;
-    int t1, t2;
-    vector<datom> temp;
-    int count = 0;
-
-    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
-        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
-            //now get dist vectors
-            dx = atoms[ti].n_diffx[i] + atoms[ti].n_diffx[j];
-            dy = atoms[ti].n_diffy[i] + atoms[ti].n_diffy[j];
-            dz = atoms[ti].n_diffz[i] + atoms[ti].n_diffz[j];
-            weight = sqrt(dx*dx+dy*dy+dz*dz);
-            datom x = {weight, count};
-            temp.emplace_back(x);
-            count++;            
-        }
-    }
-
-    //now sort
-    sort(temp.begin(), temp.end(), by_dist());
-
-    //now do the second loop
-    double csym = 0;
-
-    for(int i=0; i<nmax/2; i++){
-        csym += temp[i].dist*temp[i].dist;
-    }
-
-    atoms[ti].centrosymmetry = csym;
-}
-
-void System::calculate_centrosymmetry(int nmax){
-
-    reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
-
-    //now loop over atoms and call
-    for(int ti=0; ti<nop; ti++){
-        calculate_centrosymmetry_atom(ti, nmax);
-    }
-}
-
-vector<double> System::get_centrosymmetry(){
-
-    vector<double> csm;
-    for (int i=0; i<real_nop; i++){
-        csm.emplace_back(atoms[i].centrosymmetry);
-    }
-    return csm;
-}
+#include "system.h"
+#include <iostream>
+#include <iomanip>
+#include <algorithm>
+#include <stdio.h>
+#include "voro++.hh"
+#include "string.h"
+#include <chrono>
+#include <pybind11/stl.h>
+
+using namespace voro;
+
+//-----------------------------------------------------
+// Constructor, Destructor and Access functions
+//-----------------------------------------------------
+System::System(){
+
+    nop = 0;
+    ghost_nop = 0;
+    real_nop = 0;
+    triclinic = 0;
+    usecells = 0;
+    filter = 0;
+    maxclusterid = -1;
+    
+    alpha = 1;
+    voronoiused = 0;
+    solidq = 6;
+    criteria = 0;
+    comparecriteria = 0;
+    
+    neighbordistance = 0;
+
+    //set box with zeros
+    for(int i=0; i<3; i++){
+        for(int j=0; j<3; j++){
+            box[i][j] = 0.0;
+        }
+    }
+
+}
+
+System::~System(){
+}
+
+//-----------------------------------------------------
+// Simulation box related methods
+//-----------------------------------------------------
+void System::assign_triclinic_params(vector<vector<double>> drot, vector<vector<double>> drotinv){
+
+    for(int i=0; i<3; i++){
+        for(int j=0; j<3; j++){
+            rot[i][j] = drot[i][j];
+            rotinv[i][j] = drotinv[i][j];
+        }
+    }
+
+    triclinic = 1;
+}
+
+vector<vector<double>> System::get_triclinic_params(){
+
+    vector<vector<double>> drot;
+    vector<double> dummydrot;
+    for(int i=0; i<3; i++){
+        dummydrot.clear();
+        for(int j=0; j<3; j++){
+            dummydrot.emplace_back(rot[i][j]);
+        }
+        drot.emplace_back(dummydrot);
+    }
+    return drot;
+}
+
+void System::sbox(vector<vector <double>> boxd) {
+
+    //this method will be redone to get a 3x3 box
+    //always. They will be then translated to the
+    //corresponding other boxes
+    double isum;
+
+    for(int i=0; i<3; i++){
+        isum = 0;
+        for(int j=0; j<3; j++){
+            box[i][j] = boxd[i][j];
+            isum += boxd[i][j]*boxd[i][j];
+        }
+        boxdims[i][0] = 0;
+        boxdims[i][1] = sqrt(isum);
+
+    }
+
+    boxx = boxdims[0][1] - boxdims[0][0];
+    boxy = boxdims[1][1] - boxdims[1][0];
+    boxz = boxdims[2][1] - boxdims[2][0];
+}
+
+vector<vector<double>> System::gbox(){
+    vector<vector<double>> qres;
+    vector<double> qd;
+
+    for(int i=0;i<3;i++){
+        qd.clear();
+        for(int j=0;j<3;j++){
+            qd.emplace_back(box[i][j]);
+        }
+        qres.emplace_back(qd);
+    }
+    return qres;
+}
+
+
+//-----------------------------------------------------
+// Atom related methods
+//-----------------------------------------------------
+//this function allows for handling custom formats of atoms and so on
+void System::set_atoms( vector<Atom> atomitos){
+
+    atoms.clear();
+    nop = atomitos.size();
+    atoms.reserve(nop);
+    atoms.assign(atomitos.begin(), atomitos.end());
+
+    //now assign ghost and real atoms
+    int tg = 0;
+    int tl = 0;
+
+    for(int i=0; i<nop; i++){
+        if(atoms[i].ghost==0){
+            tl++;
+        }
+        else{
+            tg++;
+        }
+    }
+
+    ghost_nop = tg;
+    real_nop = tl;
+    //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
+    //cout<<nop<<endl;
+
+}
+
+
+//this function allows for handling custom formats of atoms and so on
+vector<Atom> System::get_atoms( ){
+    //here, we have to filter ghost atoms
+    vector<Atom> retatoms;
+    for(int i=0; i<real_nop; i++){
+        retatoms.emplace_back(atoms[i]);
+    }
+    return retatoms;
+
+}
+
+void System::add_atoms(vector<Atom> atomitos){
+
+    
+
+    //check for ghost atoms
+    int tg = 0;
+    int tl = 0;
+
+    for(int i=0; i<atomitos.size(); i++){
+        if(atomitos[i].ghost==0){
+            tl++;
+        }
+        else{
+            tg++;
+        }
+    }
+
+    //if there is are no ghosts in system and list, just add and forget
+    if(ghost_nop==0){
+        if(tg==0){
+            for (int i=0; i<atomitos.size(); i++){
+                atoms.emplace_back(atomitos[i]);
+            }            
+        }
+    }
+    else if (ghost_nop>0){
+        //now the atoms need to be reordered
+        vector<Atom> real_atoms;
+        vector<Atom> ghost_atoms;        
+        
+        for(int i=0; i<nop; i++){
+            if(atoms[i].ghost==0){
+                real_atoms.emplace_back(atoms[i]);
+            }
+            else{
+                ghost_atoms.emplace_back(atoms[i]);
+            }
+        }
+        //now also add new atoms to the list
+        for (int i=0; i<atomitos.size(); i++){
+            if(atomitos[i].ghost==0){
+                real_atoms.emplace_back(atomitos[i]);
+            }
+            else{
+                ghost_atoms.emplace_back(atomitos[i]);
+            }            
+        }
+        //now put them all in the big list
+        atoms.clear();
+
+        for(int i=0; i<real_atoms.size(); i++){
+            atoms.emplace_back(real_atoms[i]);
+        }
+        for(int i=0; i<ghost_atoms.size(); i++){
+            atoms.emplace_back(ghost_atoms[i]);
+        }
+
+        //we can clear now
+        real_atoms.clear();
+        ghost_atoms.clear();
+    }
+
+    //update 
+    ghost_nop = ghost_nop + tg;
+    real_nop = real_nop + tl;
+    nop = nop + atomitos.size();
+}
+
+
+vector<Atom> System::get_all_atoms( ){
+    //here, we have to filter ghost atoms
+    vector<Atom> retatoms;
+    for(int i=0; i<nop; i++){
+        retatoms.emplace_back(atoms[i]);
+    }
+    return retatoms;
+
+}
+
+Atom System::gatom(int i) { return atoms[i]; }
+void System::satom(Atom atom1) {
+    int idd = atom1.loc;
+    atoms[idd] = atom1;
+}
+
+//----------------------------------------------------
+// Neighbor methods
+//----------------------------------------------------
+
+double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
+
+    double abs, ax, ay, az;
+    diffx = atoms[tj].posx - atoms[ti].posx;
+    diffy = atoms[tj].posy - atoms[ti].posy;
+    diffz = atoms[tj].posz - atoms[ti].posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+        //finally distance
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+
+    }
+    else{
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+    }
+    return abs;
+}
+
+//function for binding
+double System::get_abs_distance(Atom atom1 , Atom atom2 ){
+
+    double abs, ax, ay, az;
+    double diffx = atom1.posx - atom2.posx;
+    double diffy = atom1.posy - atom2.posy;
+    double diffz = atom1.posz - atom2.posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+        //finally distance
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+
+    }
+    else{
+
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+    }
+
+    return abs;
+}
+
+//function for binding
+vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
+
+    double ax, ay, az;
+    double diffx = atom1.posx - atom2.posx;
+    double diffy = atom1.posy - atom2.posy;
+    double diffz = atom1.posz - atom2.posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+      double dummy;
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+    }
+    else{
+
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+    }
+
+    vector<double> abs;
+    abs.emplace_back(diffx);
+    abs.emplace_back(diffy);
+    abs.emplace_back(diffz);
+
+    return abs;
+}
+
+
+void System::reset_all_neighbors(){
+    for (int ti = 0;ti<nop;ti++){
+
+        atoms[ti].n_neighbors=0;
+        atoms[ti].temp_neighbors.clear();
+        atoms[ti].condition = 0;
+
+        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
+
+            atoms[ti].neighbors[tn] = NILVALUE;
+            atoms[ti].neighbordist[tn] = -1.0;
+        }
+    }
+}
+
+void System::reset_main_neighbors(){
+    for (int ti = 0;ti<nop;ti++){
+
+        atoms[ti].n_neighbors=0;
+        atoms[ti].condition = 0;
+        //atoms[ti].temp_neighbors.clear();
+
+        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
+
+            atoms[ti].neighbors[tn] = NILVALUE;
+            atoms[ti].neighbordist[tn] = -1.0;
+        }
+    }
+}
+
+
+vector<double> System::get_pairdistances(){
+
+    vector<double> res;
+    double d;
+    double diffx,diffy,diffz;
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            res.emplace_back(d);
+
+        }
+    }
+    return res;
+}
+
+//function to create cell lists
+//snmall function that returns cell index when provided with cx, cy, cz
+int System::cell_index(int cx, int cy, int cz){
+    return cx*ny*nz + cy*nz + cz;
+}
+
+
+//if number of particles are small, use brute force
+//if box is triclinic, use brute force
+void System::set_up_cells(){
+
+      int si,sj,sk, maincell, subcell;
+      vector<int> cc;
+      //find of all find the number of cells in each direction
+      nx = boxx/neighbordistance;
+      ny = boxy/neighbordistance;
+      nz = boxz/neighbordistance;
+      //now use this to find length of cell in each direction
+      double lx = boxx/nx;
+      double ly = boxy/ny;
+      double lz = boxz/nz;
+      //find the total number of cells
+      total_cells = nx*ny*nz;
+      //create a vector of cells
+      cells = new cell[total_cells];
+      //now run over and for each cell create its neighbor cells
+      //all neighbor cells are also added
+      for(int i=0; i<nx; i++){
+         for(int j=0; j<ny; j++){
+           for(int k=0; k<nz; k++){
+              maincell = cell_index(i, j, k);
+              for(int si=i-1; si<=i+1; si++){
+                  for(int sj=j-1; sj<=j+1; sj++){
+                      for(int sk=k-1; sk<=k+1; sk++){
+                         cc = cell_periodic(si, sj, sk);
+                         subcell = cell_index(cc[0], cc[1], cc[2]);
+                         //add this to the list of neighbors
+                         cells[maincell].neighbor_cells.emplace_back(subcell);
+
+                      }
+                  }
+              }
+           }
+         }
+      }
+      int cx, cy, cz;
+      double dx, dy, dz;
+      double ddx, ddy, ddz;
+      int ind;
+
+      //now loop over all atoms and assign cells
+      for(int ti=0; ti<nop; ti++){
+
+          //calculate c indices for the atom
+          dx = atoms[ti].posx;
+          dy = atoms[ti].posy;
+          dz = atoms[ti].posz;
+          
+          //now apply boxdims
+          if( abs(dx-0) < 1E-6)
+              dx = 0;
+          if( abs(dy-0) < 1E-6)
+              dy = 0;
+          if( abs(dz-0) < 1E-6)
+              dz = 0;
+
+          if (dx < 0) dx+=boxx;
+          else if (dx >= boxx) dx-=boxx;
+          if (dy < 0) dy+=boxy;
+          else if (dy >= boxy) dy-=boxy;
+          if (dz < 0) dz+=boxz;
+          else if (dz >= boxz) dz-=boxz;
+
+          //now find c vals
+          cx = dx/lx;
+          cy = dy/ly;
+          cz = dz/lz;
+
+          //now get cell index
+          ind = cell_index(cx, cy, cz);
+          //got cell index
+          //now add the atom to the corresponding cells
+          cells[ind].members.emplace_back(ti);
+
+      }
+      //end of loop - all cells, the member atoms and neighboring cells are added
+}
+
+vector<double> System::remap_atom(vector<double> pos){
+    //remap atom position into the box
+    //now apply boxdims
+    double dx = pos[0];
+    double dy = pos[1];
+    double dz = pos[2];
+    double ax, ay, az;
+
+    if (triclinic == 1){
+        //convert to the triclinic system
+        ax = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
+        ay = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
+        az = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
+
+        //scale to match the triclinic box size
+        dx = ax*boxx;
+        dy = ay*boxy;
+        dz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (dx> boxx/2.0) {dx-=boxx;};
+        if (dx<-boxx/2.0) {dx+=boxx;};
+        if (dy> boxy/2.0) {dy-=boxy;};
+        if (dy<-boxy/2.0) {dy+=boxy;};
+        if (dz> boxz/2.0) {dz-=boxz;};
+        if (dz<-boxz/2.0) {dz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        dx = dx/boxx;
+        dy = dy/boxy;
+        dz = dz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*dx + rot[0][1]*dy + rot[0][2]*dz;
+        ay = rot[1][0]*dx + rot[1][1]*dy + rot[1][2]*dz;
+        az = rot[2][0]*dx + rot[2][1]*dy + rot[2][2]*dz;
+
+        //now assign to diffs and calculate distnace
+        dx = ax;
+        dy = ay;
+        dz = az;
+    }
+    else{
+        if (dx < 0) dx+=boxx;
+        else if (dx >= boxx) dx-=boxx;
+        if (dy < 0) dy+=boxy;
+        else if (dy >= boxy) dy-=boxy;
+        if (dz < 0) dz+=boxz;
+        else if (dz >= boxz) dz-=boxz;
+    }
+    vector<double> rpos;
+    rpos.emplace_back(dx);
+    rpos.emplace_back(dy);
+    rpos.emplace_back(dz);
+    return rpos;
+
+}
+
+vector<int> System::cell_periodic(int i, int j, int k){
+    vector<int> ci;
+    //apply periodic conditions
+    if (i<0) i = i + nx;
+    else if (i>nx-1) i = i -nx;
+    ci.emplace_back(i);
+    if (j<0) j = j + ny;
+    else if (j>ny-1) j = j -ny;
+    ci.emplace_back(j);
+    if (k<0) k = k + nz;
+    else if (k>nz-1) k = k -nz;
+    ci.emplace_back(k);
+    return ci;
+
+}
+
+//get all neighbor info but using cell lists
+void System::get_all_neighbors_cells(){
+
+    voronoiused = 0;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int ti, tj;
+    //first create cells
+    set_up_cells();
+    int maincell, subcell;
+
+    //now loop to find distance
+    for(int i=0; i<total_cells; i++){
+        //now go over the neighbor cells
+        //for each member in cell i
+        for(int mi=0; mi<cells[i].members.size(); mi++){
+            //now go through the neighbors
+            ti = cells[i].members[mi];
+            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
+               //loop through members of j
+               subcell = cells[i].neighbor_cells[j];
+               for(int mj=0; mj<cells[subcell].members.size(); mj++){
+                  //now we have mj -> members/compare with
+                  tj = cells[subcell].members[mj];
+                  //compare ti and tj and add
+                  if (ti < tj){
+                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                      if (d < neighbordistance){
+
+                        if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                            continue;
+                        }
+                        else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                            continue;
+                        }
+                        //process_neighbor(ti, tj);
+                        atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                        atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+                        //weight is set to 1.0, unless manually reset
+                        atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                        atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                        atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                        atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                        convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                        atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                        atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                        atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                        atoms[ti].n_neighbors += 1;
+                        atoms[ti].cutoff = neighbordistance;
+
+                        atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
+                        atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
+                        //weight is set to 1.0, unless manually reset
+                        atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
+                        atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
+                        atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
+                        atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
+                        convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
+                        atoms[tj].n_r[atoms[tj].n_neighbors] = r;
+                        atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
+                        atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
+                        atoms[tj].n_neighbors +=1;
+                        atoms[tj].cutoff = neighbordistance;
+                      }
+                  }
+               }
+
+            }
+
+        }
+    }
+
+
+}
+
+
+
+void System::get_all_neighbors_normal(){
+
+
+    //reset voronoi flag
+    voronoiused = 0;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            if (d < neighbordistance){
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
+                //process_neighbor(ti, tj);
+                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                atoms[ti].n_neighbors += 1;
+                atoms[ti].cutoff = neighbordistance;
+
+                atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
+                atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
+                atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
+                atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
+                atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
+                convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
+                atoms[tj].n_r[atoms[tj].n_neighbors] = r;
+                atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
+                atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
+                atoms[tj].n_neighbors +=1;
+                atoms[tj].cutoff = neighbordistance;
+            }
+        }
+
+    }
+
+
+}
+
+void System::process_neighbor(int ti, int tj){
+    /*
+    Calculate all info and add it to list
+    ti - loc of host atom
+    tj - loc of the neighbor
+     d - interatomic distance
+     */
+
+    double d, diffx, diffy, diffz;
+    double r, phi, theta;
+
+    d = get_abs_distance(ti, tj, diffx,diffy,diffz);
+
+    atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+    atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+    //weight is set to 1.0, unless manually reset
+    atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+    atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+    atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+    atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+    convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+    atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+    atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+    atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+    atoms[ti].n_neighbors += 1;
+
+}
+
+/*
+To increase the speed of the other methods, we need some functions using cells and
+otheriwse which adds atoms to the temp_neighbors list
+*/
+void System::get_temp_neighbors_brute(){
+
+    //reset voronoi flag
+
+    double d;
+    double diffx,diffy,diffz;
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            if (d <= neighbordistance){
+                datom x = {d, tj};
+                atoms[ti].temp_neighbors.emplace_back(x);
+                datom y = {d, ti};
+                atoms[tj].temp_neighbors.emplace_back(y);
+            }
+        }
+    }
+
+}
+
+/*
+Cells should only be used when the system has a minimum size - in this case,
+about 2000 atoms.
+*/
+void System::get_temp_neighbors_cells(){
+
+    //first create cells
+    set_up_cells();
+
+    int maincell, subcell;
+    int ti, tj;
+    double d;
+    double diffx,diffy,diffz;
+
+    //now loop to find distance
+    for(int i=0; i<total_cells; i++){
+        //now go over the neighbor cells
+        //for each member in cell i
+        for(int mi=0; mi<cells[i].members.size(); mi++){
+            //now go through the neighbors
+            ti = cells[i].members[mi];
+            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
+               //loop through members of j
+               subcell = cells[i].neighbor_cells[j];
+               for(int mj=0; mj<cells[subcell].members.size(); mj++){
+                  //now we have mj -> members/compare with
+                  tj = cells[subcell].members[mj];
+                  //compare ti and tj and add
+                  if (ti < tj){
+                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                      if (d < neighbordistance){
+                        datom x = {d, tj};
+                        atoms[ti].temp_neighbors.emplace_back(x);
+                        datom y = {d, ti};
+                        atoms[tj].temp_neighbors.emplace_back(y);
+                      }
+                  }
+               }
+
+            }
+
+        }
+    }
+
+}
+int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom. But ONLY TEMP neighbors
+    */
+
+    //reset voronoi flag
+    voronoiused = 0;
+    
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+    finished = 1;
+
+    vector<int> nids;
+    vector<double> dists, sorted_dists;
+
+        //double prefactor = 1.21;
+    double summ;
+    double boxvol;
+
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+    //now find the volume per particle
+    double guessvol = boxvol/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < nns){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        if(assign == 1){
+            //assign the neighbors
+            for(int i=0; i<nns; i++){
+                int tj = atoms[ti].temp_neighbors[i].index;
+                process_neighbor(ti, tj);
+            }
+        }
+
+        finished = 1;            
+    }
+
+
+    return finished;
+
+
+}
+
+void System::set_atom_cutoff(double factor){
+    /*
+    Reassign atom cutoff
+    */
+    int nn;
+    double sum;
+    double avgdist;
+
+    for (int ti=0; ti<nop; ti++){
+        nn = atoms[ti].n_neighbors;
+        sum = 0;
+        for (int j=0; j<nn; j++){
+            sum += atoms[ti].neighbordist[j];
+        }
+        avgdist = sum/(double(nn));
+        atoms[ti].cutoff = factor*avgdist;
+    }
+}
+
+int System::get_neighbors_from_temp(int style){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom.
+    */
+
+    int finished = 1;
+    //reset neighbors
+    reset_main_neighbors();
+
+    if (style == 12){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 11){
+                double ssum = 0;
+                for(int i=0 ; i<12; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                //process sum
+                atoms[ti].lcutsmall = 1.2071*ssum/12;
+                //now assign neighbors based on this
+                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    double dist = atoms[ti].temp_neighbors[i].dist;
+                    if (dist <= atoms[ti].lcutsmall)
+                        process_neighbor(ti, tj);
+                }
+                finished = 1;                                  
+            }
+            else{
+                return 0;
+            }
+        }
+    }
+    else if (style == 14){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 13){
+                double ssum = 0;
+                for(int i=0 ; i<8; i++){
+                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
+                }
+                for(int i=8 ; i<14; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                atoms[ti].lcutlarge = 1.2071*ssum/14;
+                //now assign neighbors based on this
+                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    double dist = atoms[ti].temp_neighbors[i].dist;
+                    if (dist <= atoms[ti].lcutlarge)
+                        process_neighbor(ti, tj);
+                }
+                finished = 1;                                  
+            }
+            else{
+                return 0;
+            }
+        }
+    }
+
+
+    return finished;
+
+
+}
+
+
+void System::store_neighbor_info(){
+    /*
+    Method to assign neighbors and next nearest neighbors
+
+    */    
+    int nn;
+
+    for (int ti=0; ti<nop; ti++){
+
+        atoms[ti].next_neighbors.clear();
+        atoms[ti].next_neighbor_distances.clear();
+        atoms[ti].next_neighbor_counts.clear();
+        
+        atoms[ti].next_neighbors.resize(atoms[ti].n_neighbors);
+        atoms[ti].next_neighbor_distances.resize(atoms[ti].n_neighbors);
+        atoms[ti].next_neighbor_counts.resize(atoms[ti].n_neighbors);
+
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            nn = atoms[ti].neighbors[i];
+            atoms[ti].next_neighbor_counts[i] = atoms[nn].n_neighbors;
+            for(int j=0; j<atoms[nn].n_neighbors; j++){
+                atoms[ti].next_neighbors[i].emplace_back(atoms[nn].neighbors[j]);
+                atoms[ti].next_neighbor_distances[i].emplace_back(atoms[nn].neighbordist[j]);
+            }
+        }
+    }
+}
+
+
+
+
+int System::get_all_neighbors_sann(double prefactor){
+    /*
+    A new adaptive algorithm. Similar to the old ones, we guess a basic distance with padding,
+    and sort them up.
+    After that, we use the algorithm by in J. Chem. Phys. 136, 234107 (2012) to find the list of
+    neighbors.
+     */
+
+    //reset voronoi flag
+    voronoiused = 0;
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+    finished = 1;
+
+    vector<int> nids;
+    vector<double> dists, sorted_dists;
+
+    //double prefactor = 1.21;
+    double summ;
+    double boxvol;
+
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+
+    //now find the volume per particle
+    double guessvol = boxvol/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 3){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        //start with initial routine
+        m = 3;
+        summ = 0;
+        for(int i=0 ; i<m; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+            int tj = atoms[ti].temp_neighbors[i].index;
+            process_neighbor(ti, tj);
+        }
+
+        //find cutoff
+        dcut = summ/float(m-2);
+        maxneighs = atoms[ti].temp_neighbors.size();
+
+        while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
+            //increase m
+            m = m+1;
+
+            //here now we can add this to the list neighbors and process things
+            int tj = atoms[ti].temp_neighbors[m].index;
+            process_neighbor(ti, tj);
+
+            //find new dcut
+            summ = summ + atoms[ti].temp_neighbors[m].dist;
+            dcut = summ/float(m-2);
+            atoms[ti].cutoff = dcut;
+        }
+
+        //find if there was an error
+        if (m==maxneighs){
+            finished = 0;
+            break;
+        }
+        else{
+            finished = 1;
+        }
+
+    }
+
+
+    return finished;
+
+
+}
+
+
+
+int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+
+    double summ;
+    double boxvol;
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+    //now find the volume per particle
+    double guessvol = boxvol/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    //introduce cell lists here - instead of looping over all neighbors
+    //use cells
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+
+    //end of callstructural competition
+    //subatoms would now be populated
+    //now starts the main loop
+    for (int ti=0; ti<nop; ti++){
+        //check if its zero size
+        if (atoms[ti].temp_neighbors.size() < nlimit){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        summ = 0;
+        for(int i=0; i<nlimit; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+        }
+        dcut = padding*(1.0/float(nlimit))*summ;
+
+        //now we are ready to loop over again, but over the lists
+        for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
+            int tj = atoms[ti].temp_neighbors[j].index;
+            if (atoms[ti].temp_neighbors[j].dist < dcut){
+
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
+                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                atoms[ti].n_neighbors += 1;
+                atoms[ti].cutoff = dcut;
+
+            }
+        }
+
+    }
+
+
+    return 1;
+
+}
+
+void System::set_neighbordistance(double nn) { neighbordistance = nn; }
+
+
+//---------------------------------------------------
+// Methods for q calculation
+//---------------------------------------------------
+double System::dfactorial(int l,int m){
+
+    double fac = 1.00;
+    for(int i=0;i<2*m;i++){
+        fac*=double(l+m-i);
+    }
+    return (1.00/fac);
+}
+
+void System::set_reqd_qs(vector <int> qs){
+
+    lenqs = qs.size();
+    reqdqs = new int[lenqs];
+    for(int i=0;i<lenqs;i++){
+        reqdqs[i] = qs[i];
+    }
+
+    rq_backup = qs;
+}
+
+
+void System::set_reqd_aqs(vector <int> qs){
+
+    lenaqs = qs.size();
+    reqdaqs = new int[lenaqs];
+    for(int i=0;i<lenaqs;i++){
+        for(int j=0;j<lenqs;j++){
+            if(qs[i]==reqdqs[j]) { reqdaqs[i] = qs[i]; }
+        }
+    }
+    //only qvlaues in the normal set will be included in the aq list
+    //check here if its in the qlist
+    //cout<<"corresponding q value should also be set."<<endl;
+
+}
+
+double System::PLM(int l, int m, double x){
+
+    double fact,pll,pmm,pmmp1,somx2;
+    int i,ll;
+    pll = 0.0;
+    if (m < 0 || m > l || fabs(x) > 1.0)
+        cerr << "impossible combination of l and m" << "\n";
+    pmm=1.0;
+    if (m > 0){
+        somx2=sqrt((1.0-x)*(1.0+x));
+        fact=1.0;
+        for (i=1;i<=m;i++){
+            pmm *= -fact*somx2;
+            fact += 2.0;
+        }
+    }
+
+    if (l == m)
+        return pmm;
+    else{
+        pmmp1=x*(2*m+1)*pmm;
+        if (l == (m+1))
+            return pmmp1;
+        else{
+            for (ll=m+2;ll<=l;ll++){
+            pll=(x*(2*ll-1)*pmmp1-(ll+m-1)*pmm)/(ll-m);
+            pmm=pmmp1;
+            pmmp1=pll;
+            }
+        return pll;
+        }
+    }
+}
+
+void System::convert_to_spherical_coordinates(double x, double y, double z, double &r, double &phi, double &theta){
+    r = sqrt(x*x+y*y+z*z);
+    theta = acos(z/r);
+    phi = atan2(y,x);
+}
+
+
+void System::YLM(int l, int m, double theta, double phi, double &realYLM, double &imgYLM){
+
+    double factor;
+    double m_PLM;
+    m_PLM = PLM(l,m,cos(theta));
+    factor = ((2.0*double(l) + 1.0)/ (4.0*PI))*dfactorial(l,m);
+    realYLM = sqrt(factor) * m_PLM * cos(double(m)*phi);
+    imgYLM  = sqrt(factor) * m_PLM * sin(double(m)*phi);
+}
+
+
+void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &imgYLM ){
+
+    realYLM = 0.0;
+    imgYLM = 0.0;
+    if (m < 0) {
+        YLM(l, abs(m), theta, phi, realYLM, imgYLM);
+        realYLM = pow(-1.0,m)*realYLM;
+        imgYLM = pow(-1.0,m)*imgYLM;
+    }
+    else{
+        YLM(l, m, theta, phi, realYLM, imgYLM);
+    }
+}
+
+void System::calculate_complexQLM_6(){
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    double realYLM,imgYLM;
+
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+        for (int mi = -6;mi < 7;mi++){
+
+            realti = 0.0;
+            imgti = 0.0;
+            for (int ci = 0;ci<nn;ci++){
+
+                QLM(6,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
+                realti += atoms[ti].neighborweight[ci]*realYLM;
+                imgti += atoms[ti].neighborweight[ci]*imgYLM;
+            }
+
+            realti = realti/(double(nn));
+            imgti = imgti/(double(nn));
+            atoms[ti].realq[4][mi+6] = realti;
+            atoms[ti].imgq[4][mi+6] = imgti;
+        }
+    }
+}
+
+//calculation of any complex qval
+void System::calculate_q(vector <int> qs){
+
+    //set_reqd_qs(qs);
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    double realYLM,imgYLM;
+    int q;
+    double summ;
+
+    //first make space in atoms for the number of qs needed - assign with null values
+    /*
+    for(int ti=0;ti<nop;ti++){
+        for(int tj=0;tj<11;tj++){
+
+            atoms[ti].q[tj] = -1;
+            atoms[ti].aq[tj] = -1;
+            for(int tk=0;tk<25;tk++){
+                atoms[ti].realq[tj][tk] = 0;
+                atoms[ti].imgq[tj][tk] = 0;
+                atoms[ti].arealq[tj][tk] = 0;
+                atoms[ti].aimgq[tj][tk] = 0;
+            }
+        }
+    }
+    */
+
+    //note that the qvals will be in -2 pos
+    //q2 will be in q0 pos and so on
+    double weightsum;
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+        //for(int tq=0;tq<lenqs;tq++){
+        for(int tq=0;tq<qs.size();tq++){
+            //find which q?
+            q = qs[tq];
+            //cout<<q<<endl;
+            summ = 0;
+            for (int mi = -q;mi < q+1;mi++){
+                realti = 0.0;
+                imgti = 0.0;
+                weightsum = 0;
+                for (int ci = 0;ci<nn;ci++){
+                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
+                    QLM(q,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
+                    realti += atoms[ti].neighborweight[ci]*realYLM;
+                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
+                    weightsum += atoms[ti].neighborweight[ci];
+                }
+
+            //the weights are not normalised,
+            if(!voronoiused){
+                realti = realti/float(weightsum);
+                imgti = imgti/float(weightsum);
+            }
+
+
+            atoms[ti].realq[q-2][mi+q] = realti;
+            atoms[ti].imgq[q-2][mi+q] = imgti;
+
+            summ+= realti*realti + imgti*imgti;
+            //summ+= realti;
+            }
+            //normalise summ
+            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
+            atoms[ti].q[q-2] = summ;
+
+        }
+
+    }
+
+}
+
+
+//calculation of any complex aqvalb
+void System::calculate_aq(vector <int> qs){
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    //double realYLM,imgYLM;
+    int q;
+    double summ;
+    int nns;
+
+    //if (!qsfound) { calculate_q(qs); }
+    //note that the qvals will be in -2 pos
+    //q2 will be in q0 pos and so on
+
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+
+        for(int tq=0;tq<qs.size();tq++){
+            //find which q?
+            q = qs[tq];
+            //cout<<q<<endl;
+            summ = 0;
+            for (int mi = 0;mi < 2*q+1;mi++){
+                realti = atoms[ti].realq[q-2][mi];
+                imgti = atoms[ti].imgq[q-2][mi];
+                nns = 0;
+                for (int ci = 0;ci<nn;ci++){
+                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
+                    realti += atoms[atoms[ti].neighbors[ci]].realq[q-2][mi];
+                    imgti += atoms[atoms[ti].neighbors[ci]].imgq[q-2][mi];
+                    nns += 1;
+                }
+
+            //realti = realti/weightsum;
+            //imgti = realti/weightsum;
+
+            realti = realti/(double(nns+1));
+            imgti = imgti/(double(nns+1));
+
+            atoms[ti].arealq[q-2][mi] = realti;
+            atoms[ti].aimgq[q-2][mi] = imgti;
+
+            summ+= realti*realti + imgti*imgti;
+            }
+            //normalise summ
+            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
+            atoms[ti].aq[q-2] = summ;
+
+        }
+
+    }
+}
+
+vector<double> System::gqvals(int qq){
+    vector<double> qres;
+    qres.reserve(real_nop);
+    for(int i=0;i<real_nop;i++){
+        qres.emplace_back(atoms[i].q[qq-2]);
+    }
+
+    return qres;
+}
+
+vector<double> System::gaqvals(int qq){
+    vector<double> qres;
+    qres.reserve(real_nop);
+    for(int i=0;i<real_nop;i++){
+        qres.emplace_back(atoms[i].aq[qq-2]);
+    }
+
+    return qres;
+}
+
+void System::calculate_disorder(){
+
+    //for disorder we need sjj which is dot product with itself, self dot prouct of neighbors
+    //and cross dot product
+    double sumSquareti,sumSquaretj;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    double dis;
+
+    for(int ti=0; ti<nop; ti++){
+
+        sumSquareti = 0.0;
+        realdotproduct = 0.0;
+        imgdotproduct = 0.0;
+
+        for (int mi = 0;mi < 2*solidq+1 ;mi++){
+            sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+            realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi];
+            imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+        }
+        connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquareti)*sqrt(sumSquareti));
+        atoms[ti].sii = connection;
+
+    }
+
+    //first round is over
+    //now find cross terms
+    for(int ti=0; ti<nop; ti++){
+
+        sumSquareti = 0.0;
+        sumSquaretj = 0.0;
+        realdotproduct = 0.0;
+        imgdotproduct = 0.0;
+        dis = 0;
+
+        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+            for (int mi = 0;mi < 2*solidq+1 ;mi++){
+                sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+                sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+                realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
+                imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+            }
+            connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+            dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
+        }
+        atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
+
+    }
+}
+
+void System::find_average_disorder(){
+    double vv;
+    int nn;
+
+    for (int ti= 0;ti<nop;ti++){
+        nn = atoms[ti].n_neighbors;
+        vv = atoms[ti].disorder;
+        for (int ci = 0; ci<nn; ci++){
+            vv += atoms[atoms[ti].neighbors[ci]].disorder;
+        }
+        vv = vv/(double(nn+1));
+        atoms[ti].avgdisorder = vv;
+    }
+}
+//-----------------------------------------------------
+// Solids and Clustering methods
+//-----------------------------------------------------
+//also has to be overloaded - could be a useful function
+double System::get_number_from_bond(int ti,int tj){
+
+    double sumSquareti,sumSquaretj;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    sumSquareti = 0.0;
+    sumSquaretj = 0.0;
+    realdotproduct = 0.0;
+    imgdotproduct = 0.0;
+
+    for (int mi = 0;mi < 2*solidq+1 ;mi++){
+
+        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+        sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+        realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
+        imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+    }
+
+    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+    //cout<<connection<<endl;
+    return connection;
+}
+
+//overloaded version
+double System::get_number_from_bond(Atom atom1,Atom atom2){
+
+    double sumSquareti,sumSquaretj;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    sumSquareti = 0.0;
+    sumSquaretj = 0.0;
+    realdotproduct = 0.0;
+    imgdotproduct = 0.0;
+
+    for (int mi = 0;mi < 2*solidq+1 ;mi++){
+
+        sumSquareti += atom1.realq[solidq-2][mi]*atom1.realq[solidq-2][mi] + atom1.imgq[solidq-2][mi] *atom1.imgq[solidq-2][mi];
+        sumSquaretj += atom2.realq[solidq-2][mi]*atom2.realq[solidq-2][mi] + atom2.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
+        realdotproduct += atom1.realq[solidq-2][mi]*atom2.realq[solidq-2][mi];
+        imgdotproduct  += atom1.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
+    }
+
+    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+    return connection;
+}
+
+void System::calculate_frenkel_numbers(){
+
+    int frenkelcons;
+    double scalar;
+
+    for (int ti= 0;ti<nop;ti++){
+
+        frenkelcons = 0;
+        atoms[ti].avq6q6 = 0.0;
+        for (int c = 0;c<atoms[ti].n_neighbors;c++){
+
+            scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
+            atoms[ti].sij[c] = scalar;
+            if (comparecriteria == 0){
+                if (scalar > threshold) frenkelcons += 1;
+            }
+            else{
+                if (scalar < threshold) frenkelcons += 1;
+            }
+
+            atoms[ti].avq6q6 += scalar;
+        }
+
+        atoms[ti].frenkelnumber = frenkelcons;
+        atoms[ti].avq6q6 /= atoms[ti].n_neighbors;
+
+    }
+}
+
+
+void System::find_solid_atoms(){
+
+    int tfrac;
+    if (criteria == 0){
+        for (int ti= 0;ti<nop;ti++){
+          if (comparecriteria == 0)
+            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 > avgthreshold) );
+          else
+            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 < avgthreshold) );
+        }
+    }
+    else if (criteria == 1){
+        for (int ti= 0;ti<nop;ti++){
+            tfrac = ((atoms[ti].frenkelnumber/double(atoms[ti].n_neighbors)) > minfrenkel);
+            if (comparecriteria == 0)
+                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 > avgthreshold));
+            else
+                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 < avgthreshold));
+        }
+    }
+
+}
+
+
+void System::find_clusters(double clustercutoff){
+        //Clustering methods should only run over real atoms
+        if (clustercutoff != 0){
+          for(int ti=0; ti<real_nop;ti++){
+              atoms[ti].cutoff = clustercutoff;
+          }
+        }
+        for(int ti=0; ti<real_nop;ti++){
+            atoms[ti].belongsto = -1;
+        }
+
+        for (int ti= 0;ti<real_nop;ti++){
+
+            if (!atoms[ti].condition) continue;
+            if (atoms[ti].ghost) continue;
+
+            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
+            for (int c = 0;c<atoms[ti].n_neighbors;c++){
+
+                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
+                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
+                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
+                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
+                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
+                }
+                else{
+                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
+                }
+            }
+        }
+}
+
+//we have to test with a recursive algorithm - to match the values that is presented
+//in Grisells code.
+void System::harvest_cluster(const int ti, const int clusterindex){
+
+    int neigh;
+    for(int i=0; i<atoms[ti].n_neighbors; i++){
+        neigh = atoms[ti].neighbors[i];
+        if (atoms[neigh].ghost) continue;
+        if(!atoms[neigh].condition) continue;
+        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
+        if (atoms[neigh].belongsto==-1){
+            atoms[neigh].belongsto = clusterindex;
+            harvest_cluster(neigh, clusterindex);
+        }
+    }
+}
+
+void System::find_clusters_recursive(double clustercutoff){
+
+  if (clustercutoff != 0){
+    for(int ti=0; ti<nop;ti++){
+        atoms[ti].cutoff = clustercutoff;
+    }
+  }
+
+    int clusterindex;
+    clusterindex = 0;
+
+    //reset belongsto indices
+    for(int ti=0; ti<real_nop;ti++){
+        atoms[ti].belongsto = -1;
+    }
+
+    for (int ti= 0;ti<real_nop;ti++){
+        if (!atoms[ti].condition) continue;
+        if (atoms[ti].ghost) continue;
+        if (atoms[ti].belongsto==-1){
+            clusterindex += 1;
+            atoms[ti].belongsto = clusterindex;
+            harvest_cluster(ti, clusterindex);
+        }
+
+    }
+}
+
+
+
+int System::largest_cluster(){
+
+        int *freq = new int[nop];
+        for(int ti=0;ti<real_nop;ti++){
+            freq[ti] = 0;
+        }
+
+        for (int ti= 0;ti<real_nop;ti++)
+        {
+            if (atoms[ti].belongsto==-1) continue;
+            freq[atoms[ti].belongsto-1]++;
+        }
+
+        int max=0;
+        for (int ti= 0;ti<real_nop;ti++)
+        {
+            if (freq[ti]>max){
+                max=freq[ti];
+                maxclusterid = ti+1;
+            }
+
+        }
+
+        get_largest_cluster_atoms();
+
+        return max;
+}
+
+void System::get_largest_cluster_atoms(){
+        for(int ti=0; ti<real_nop; ti++){
+            atoms[ti].issurface = 1;
+            atoms[ti].lcluster = 0;
+            //if its in same cluster as max cluster assign it as one
+            if(atoms[ti].belongsto == maxclusterid){
+                atoms[ti].lcluster = 1;
+            }
+           //if its solid- identfy if it has liquid
+            if(atoms[ti].issolid == 1){
+                atoms[ti].issurface = 0;
+                for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
+                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                        atoms[ti].issurface = 1;
+                        break;
+                    }
+                }
+            }
+        }
+}
+
+void System::set_nucsize_parameters(double n1, double n2, double n3 ) { minfrenkel = n1; threshold = n2; avgthreshold = n3; }
+
+//-----------------------------------------------------
+// Voronoi based methods
+//-----------------------------------------------------
+void System::set_face_cutoff(double fcut){
+    face_cutoff = fcut;
+}
+
+//overloaded function; would be called
+//if neighbor method voronoi is selected.
+void System::get_all_neighbors_voronoi(){
+
+    //reset voronoi flag
+    voronoiused = 1;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int i;
+    int ti,id,tnx,tny,tnz, nverts;
+
+    double rx,ry,rz,tsum, fa, x, y, z, vol;
+    vector<int> neigh,f_vert, vert_nos;
+    vector<double> facearea, v, faceperimeters;
+    voronoicell_neighbor c;
+    vector< vector<double> > nweights;
+    vector< vector<int> > nneighs;
+    vector<int> idss;
+    //vector<int> nvector;
+    double weightsum;
+    vector <double> pos;
+
+    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
+    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
+    for(int i=0; i<nop; i++){
+        pos = atoms[i].gx();
+        pos = remap_atom(pos);
+        pcon.put(i, pos[0], pos[1], pos[2]);
+    }
+    pcon.guess_optimal(tnx,tny,tnz);
+    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
+    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+    pcon.setup(con);
+
+    c_loop_all cl(con);
+    if (cl.start()) do if(con.compute_cell(c,cl)) {
+            ti=cl.pid();
+            c.face_areas(facearea);
+            c.neighbors(neigh);
+            c.face_orders(f_vert);
+            c.face_vertices(vert_nos);
+            c.vertices(x,y,z,v);
+            c.face_perimeters(faceperimeters);
+
+            vol = c.volume();
+            tsum = 0;
+            vector <double> dummyweights;
+            vector <int> dummyneighs;
+
+            //only loop over neighbors
+            weightsum = 0.0;
+            for (int i=0; i<facearea.size(); i++){
+                weightsum += pow(facearea[i], alpha);
+            }
+
+
+            //assign to nvector
+            atoms[ti].volume = vol;
+            atoms[ti].vertex_vectors = v;
+            atoms[ti].vertex_numbers = vert_nos;
+            atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
+            
+            //clean up and add vertex positions
+            nverts = int(v.size())/3;
+            pos = atoms[ti].gx();
+            for(int si=0; si<nverts; si++){
+                vector<double> temp;
+                int li=0;
+                for(int vi=si*3; vi<(si*3+3); vi++){
+                    temp.emplace_back(v[vi]+pos[li]);
+                    li++;
+                }
+                atoms[ti].vertex_positions.emplace_back(temp);
+            }
+
+            //assign to the atom
+            //atoms[ti].vorovector = nvector;
+
+            //only loop over neighbors
+            //weightsum = 0.0;
+            //for (int i=0; i<facearea.size(); i++){
+            //    weightsum += facearea[i];
+            //}
+            for (int tj=0; tj<neigh.size(); tj++){
+
+                //if filter doesnt work continue
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
+                atoms[ti].neighbors[tj] = neigh[tj];
+                atoms[ti].n_neighbors += 1;
+                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
+                atoms[ti].neighbordist[tj] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[tj] = f_vert[tj];
+                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
+                atoms[ti].n_diffx[tj] = diffx;
+                atoms[ti].n_diffy[tj] = diffy;
+                atoms[ti].n_diffz[tj] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[tj] = r;
+                atoms[ti].n_phi[tj] = phi;
+                atoms[ti].n_theta[tj] = theta;
+
+            }
+
+    } while (cl.inc());
+
+
+    //now calculate the averged volume
+    find_average_volume();
+
+
+}
+
+
+void System::find_average_volume(){
+    double vv;
+    int nn;
+
+    for (int ti= 0;ti<nop;ti++){
+        nn = atoms[ti].n_neighbors;
+        vv = atoms[ti].volume;
+        for (int ci = 0;ci<nn;ci++){
+            vv += atoms[atoms[ti].neighbors[ci]].volume;
+        }
+        vv = vv/(double(nn+1));
+        atoms[ti].avgvolume = vv;
+    }
+}
+
+//-------------------------------------------------------
+// CNA parameters
+//-------------------------------------------------------
+void System::get_diamond_neighbors(){
+    /*
+    Get the neighbors in diamond lattice which is part of the
+    underlying fcc cell.
+
+    Also store the first and second nearest neighbors for
+    latest identification.
+    */
+    reset_main_neighbors();
+    for (int ti=0; ti<nop; ti++){
+        //cout<<"ti = "<<ti<<endl;
+        //start loop
+        for(int j=0 ; j<4; j++){
+            int tj = atoms[ti].temp_neighbors[j].index;
+            //cout<<"tj = "<<tj<<endl;
+            //loop over the neighbors
+            atoms[ti].nn1[j] = tj;
+            for(int k=0 ; k<4; k++){
+                int tk = atoms[tj].temp_neighbors[k].index;
+                //cout<<"tk = "<<tk<<endl;
+                //now make sure its not the same atom
+                if (ti == tk) continue;
+                //process the neighbors
+                process_neighbor(ti, tk);
+            }
+        }
+    }
+}
+
+void System::get_cna_neighbors(int style){
+    /*
+    Get neighbors for CNA method
+    There are two styles available:
+    
+    Style 1: For FCC like structures (HCP/ICO)
+    Style 2: For BCC structure    
+    */
+    int finished = 1;
+    reset_main_neighbors();
+    double factor, dist;
+    int ncount;
+
+    if (style == 1){
+        factor = 0.854;
+        ncount = 12;
+    }
+    else if (style == 2){
+        factor = 1.207;
+        ncount = 14;
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = factor*lattice_constant;
+        for(int i=0 ; i<ncount; i++){
+            int tj = atoms[ti].temp_neighbors[i].index;
+            //dist = atoms[ti].temp_neighbors[i].dist;
+            //if (dist <= atoms[ti].cutoff)
+            process_neighbor(ti, tj);
+        }
+    }
+}
+
+void System::get_acna_neighbors(int style){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom.
+    There are two styles available:
+    
+    Style 1: For FCC like structures (HCP/ICO)
+    Style 2: For BCC structure
+    */
+
+    double dist;
+
+    //reset neighbors
+    reset_main_neighbors();
+
+    if (style == 1){ 
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 11){
+                double ssum = 0;
+                for(int i=0 ; i<12; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                //process sum
+                atoms[ti].cutoff = 1.207*ssum/12.00;
+                //now assign neighbors based on this
+                for(int i=0 ; i<12; i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    dist = atoms[ti].temp_neighbors[i].dist;
+                    //if (dist <= atoms[ti].cutoff)
+                    process_neighbor(ti, tj);
+                }                                 
+            }
+        }
+    }
+    else if (style == 2){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 13){
+                double ssum = 0;
+                for(int i=0 ; i<8; i++){
+                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
+                }
+                for(int i=8 ; i<14; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                atoms[ti].cutoff = 1.207*ssum/14.00;
+                //now assign neighbors based on this
+                for(int i=0 ; i<14; i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    dist = atoms[ti].temp_neighbors[i].dist;
+                    //if (dist <= atoms[ti].cutoff)
+                    process_neighbor(ti, tj);
+                }                                 
+            }
+        }
+    }
+}
+
+void System::get_common_neighbors(int ti){
+    /*
+    Get common neighbors between an atom and its neighbors
+    */
+    int m, n;
+    double d, dx, dy, dz;
+
+    //we have to rest a couple of things first
+    //cna vector
+    //also common array
+    atoms[ti].cna.clear();
+    atoms[ti].cna.resize(atoms[ti].n_neighbors);
+    atoms[ti].common.clear();
+    atoms[ti].common.resize(atoms[ti].n_neighbors);
+
+    for(int i=0; i<atoms[ti].n_neighbors; i++){
+        for(int j=0; j<4; j++){
+            atoms[ti].cna[i].emplace_back(0);
+        }
+    }
+    
+    //now start loop
+    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
+        m = atoms[ti].neighbors[i];
+        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
+            n = atoms[ti].neighbors[j];
+            d = get_abs_distance(m, n, dx, dy, dz);
+            if (d <= atoms[ti].cutoff){
+                atoms[ti].cna[i][0]++;
+                atoms[ti].common[i].emplace_back(n);
+                atoms[ti].cna[j][0]++;
+                atoms[ti].common[j].emplace_back(m);
+            }
+        }
+    }
+}
+
+
+void System::get_common_bonds(int ti){
+    /*
+    Last two steps for CNA analysis
+    */
+    int c1, c2, maxbonds, minbonds;
+    double d, dx, dy, dz;
+
+    //first we clear the bonds array
+    atoms[ti].bonds.clear();
+    atoms[ti].bonds.resize(atoms[ti].n_neighbors);
+
+    //start loop
+    for(int k=0; k<atoms[ti].n_neighbors; k++){
+        //clear bonds first
+        for(int l=0; l<atoms[ti].cna[k][0]; l++){
+            atoms[ti].bonds[k].emplace_back(0);
+        }
+        //now start proper loop
+        for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
+            for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
+                c1 = atoms[ti].common[k][l];
+                c2 = atoms[ti].common[k][m];
+                d = get_abs_distance(c1, c2, dx, dy, dz);
+                if(d <= atoms[ti].cutoff){
+                    atoms[ti].cna[k][1]++;
+                    atoms[ti].bonds[k][l]++;
+                    atoms[ti].bonds[k][m]++;
+                }
+            }
+        }
+        maxbonds = 0;
+        minbonds = 8;
+        for(int l=0; l<atoms[ti].cna[k][0]; l++){
+            maxbonds = max(atoms[ti].bonds[k][l], maxbonds);
+            minbonds = min(atoms[ti].bonds[k][l], minbonds);
+        }
+        atoms[ti].cna[k][2] = maxbonds;
+        atoms[ti].cna[k][3] = minbonds;    
+    }
+}
+
+void System::identify_cn12(){
+
+    int c1, c2, c3, c4;
+    int nfcc, nhcp, nico;
+
+    //now we start
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure==0){
+            get_common_neighbors(ti);
+            get_common_bonds(ti);
+
+            //now assign structure if possible
+            nfcc = 0;
+            nhcp = 0;
+            nico = 0;
+            for(int k=0; k<atoms[ti].n_neighbors; k++){
+                c1 = atoms[ti].cna[k][0];
+                c2 = atoms[ti].cna[k][1];
+                c3 = atoms[ti].cna[k][2];
+                c4 = atoms[ti].cna[k][3];
+
+                if((c1==4) && (c2==2) && (c3==1) && (c4==1)){
+                    nfcc++;
+                }
+                else if ((c1==4) && (c2==2) && (c3==2) && (c4==0)){
+                    nhcp++;
+                }
+                else if ((c1==5) && (c2==5) && (c3==2) && (c4==2)){
+                    nico++;
+                }
+
+            }
+            if(nfcc==12){
+                atoms[ti].structure = 1;
+            }
+            else if((nfcc==6) && (nhcp==6)){
+                atoms[ti].structure = 2;   
+            }
+            else if (nico==12){
+                atoms[ti].structure = 4;   
+            }
+        }
+    }
+}
+
+void System::identify_cn14(){
+    
+    int c1, c2, c3, c4;
+    int nbcc1, nbcc2;
+
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure==0){
+            get_common_neighbors(ti);
+            get_common_bonds(ti);
+
+            //now assign structure if possible
+            nbcc1 = 0;
+            nbcc2 = 0;
+            for(int k=0; k<atoms[ti].n_neighbors; k++){
+                c1 = atoms[ti].cna[k][0];
+                c2 = atoms[ti].cna[k][1];
+                c3 = atoms[ti].cna[k][2];
+                c4 = atoms[ti].cna[k][3];
+
+                if((c1==4) && (c2==4) && (c3==2) && (c4==2)){
+                    nbcc1++;
+                }
+                else if ((c1==6) && (c2==6) && (c3==2) && (c4==2)){
+                    nbcc2++;
+                }
+            }
+            if((nbcc1==6) && (nbcc2==8)){
+                atoms[ti].structure = 3;   
+            }
+        }
+    }    
+}
+
+vector<int> System::identify_diamond_structure(){
+    /*
+    Calculate diamond structure
+
+    Assign structure numbers
+    ------------------------
+    5 : Cubic diamond (CD)
+    6 : 1NN of CD
+    7 : 2NN of CD
+    8 : Hexagonal diamond (HD)
+    9 : 1NN of HD
+    10: 2NN of HD
+    */
+    //first get lump neighbors
+    vector<int> analyis;
+    for(int i=0; i<11; i++){
+        analyis.emplace_back(0);
+    }
+
+
+    for(int i=0; i<nop; i++){
+        atoms[i].structure = 0;
+    }
+
+    identify_cndia();
+    //gather results
+    for(int ti=0; ti<real_nop; ti++){
+        analyis[atoms[ti].structure] += 1;
+    }
+
+    return analyis;
+
+}
+
+void System::identify_cndia(){
+    /*
+    Identify diamond structure
+
+    Assign structure numbers
+    ------------------------
+    5 : Cubic diamond (CD)
+    6 : 1NN of CD
+    7 : 2NN of CD
+    8 : Hexagonal diamond (HD)
+    9 : 1NN of HD
+    10: 2NN of HD
+    */
+    //now get diamond neighbors
+    get_diamond_neighbors();
+
+    //calculate cutoffs
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].n_neighbors > 11){
+            double ssum = 0;
+            for(int i=0 ; i<12; i++){
+                ssum += atoms[ti].neighbordist[i];
+            }
+            //process sum
+            atoms[ti].cutoff = 1.207*ssum/12.00;
+            //now assign neighbors based on this
+        }
+    }
+
+    //now calculate cna signature for each atom and assign
+    //structures - but only check 12 signature
+    identify_cn12();
+    int n;
+    //now for each atom
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure == 1){
+            atoms[ti].structure = 5;
+        }
+        else if(atoms[ti].structure == 2){
+            atoms[ti].structure = 8;
+        }
+    }
+    //second pass
+    for(int ti=0; ti<nop; ti++){
+        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8)){
+            for(int i=0; i<4; i++){
+                n = atoms[ti].nn1[i];
+                if(atoms[n].structure == 5){
+                    atoms[ti].structure = 6;
+                    break;
+                }
+                else if (atoms[n].structure == 8){
+                    atoms[ti].structure = 9;
+                    break;
+                }
+            }
+        }
+    }
+
+    for(int ti=0; ti<nop; ti++){
+        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8) && (atoms[ti].structure != 6) && (atoms[ti].structure != 9)){
+            for(int i=0; i<atoms[ti].n_neighbors; i++){
+                n = atoms[ti].neighbors[i];
+                if(atoms[n].structure == 5){
+                    atoms[ti].structure = 7;
+                    break;
+                }
+                else if (atoms[n].structure == 8){
+                    atoms[ti].structure = 10;
+                    break;
+                }
+            }
+        }
+    }
+}
+
+vector<int> System::calculate_cna(int method){
+    /*
+    Calculate CNA or ACNA
+    
+    Args
+    ----
+    method : 1 if CNA
+             2 if ACNA
+    */
+
+    //create array for result
+    vector<int> analyis;
+    for(int i=0; i<5; i++){
+        analyis.emplace_back(0);
+    }
+
+    //assign structures to 0
+    for(int i=0; i<nop; i++){
+        atoms[i].structure = 0;
+    }
+    
+    //first get lump neighbors
+    //neighbor method is same
+    get_all_neighbors_bynumber(3, 14, 0);
+
+    //first we start by checking for 12 CN 
+    //CNA method
+    if(method==1){
+        get_cna_neighbors(1);
+    }
+    //ACNA method
+    else if (method==2){
+        get_acna_neighbors(1);
+    }
+
+    //call here
+    identify_cn12();
+
+    //now we start by checking for 14 CN 
+    //CNA method
+    if(method==1){
+        get_cna_neighbors(2);
+    }
+    //ACNA method
+    else if (method==2){
+        get_acna_neighbors(2);
+    }
+
+    //call here
+    identify_cn14();
+
+    //gather results
+    for(int ti=0; ti<real_nop; ti++){
+        analyis[atoms[ti].structure] += 1;
+    }
+
+    return analyis;
+}
+//-------------------------------------------------------
+// Other order parameters
+//-------------------------------------------------------
+
+//Methods for entropy
+double System::switching_fn(double rij, double ra, int M, int N){
+
+    double num = 1.0 - pow((rij/ra), N);
+    double denum = 1.0 - pow((rij/ra), M);
+    return num/denum;
+}
+
+void System::average_entropy(){
+    double entsum;
+    for(int i=0; i<nop; i++){
+        entsum = atoms[i].entropy;
+        for(int j=0; j<atoms[i].n_neighbors; j++){
+            entsum += atoms[atoms[i].neighbors[j]].entropy;
+        }
+        atoms[i].avg_entropy = entsum/(double(atoms[i].n_neighbors + 1));
+    }
+}
+
+void System::average_entropy_switch(double ra, int M, int N){
+
+    double frij;
+    double frijsum = 0.0;
+    double entfrijsum = 0.0;
+
+    for(int i=0; i<nop; i++){
+        
+        frijsum = 0.0;
+        entfrijsum = 0.0;
+
+        for(int j=0; j<atoms[i].n_neighbors; j++){
+            frij = switching_fn(atoms[i].neighbordist[j], ra, M, N);
+            frijsum += frij;
+            entfrijsum += atoms[atoms[i].neighbors[j]].entropy*frij;
+        }
+
+        atoms[i].avg_entropy = (entfrijsum + atoms[i].entropy)/(frijsum + 1.0);
+    }
+}
+
+
+void System::entropy(double sigma, double rho, double rstart, double rstop, double h, double kb){
+
+    for(int i=0; i<nop; i++){
+        
+        atoms[i].sigma = sigma;
+        if (rho == 0){
+            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        atoms[i].rho = rho;
+        atoms[i].rstart = rstart;
+        atoms[i].rstop = rstop;
+        atoms[i].h = h;
+        atoms[i].kb = kb;
+
+        atoms[i].trapezoid_integration();
+    }
+}
+
+
+void System::calculate_centrosymmetry_atom(int ti, int nmax){
+    /*
+    Calculate centrosymmetry parameter
+    */
+    //loop over neighbors
+    
+    double d, dx, dy, dz, weight;
+    int t1, t2;
+    vector<datom> temp;
+    int count = 0;
+
+    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
+        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
+            //now get dist vectors
+            dx = atoms[ti].n_diffx[i] + atoms[ti].n_diffx[j];
+            dy = atoms[ti].n_diffy[i] + atoms[ti].n_diffy[j];
+            dz = atoms[ti].n_diffz[i] + atoms[ti].n_diffz[j];
+            weight = sqrt(dx*dx+dy*dy+dz*dz);
+            datom x = {weight, count};
+            temp.emplace_back(x);
+            count++;            
+        }
+    }
+
+    //now sort
+    sort(temp.begin(), temp.end(), by_dist());
+
+    //now do the second loop
+    double csym = 0;
+
+    for(int i=0; i<nmax/2; i++){
+        csym += temp[i].dist*temp[i].dist;
+    }
+
+    atoms[ti].centrosymmetry = csym;
+}
+
+void System::calculate_centrosymmetry(int nmax){
+
+    reset_all_neighbors();
+    get_all_neighbors_bynumber(3, nmax, 1);
+
+    //now loop over atoms and call
+    for(int ti=0; ti<nop; ti++){
+        calculate_centrosymmetry_atom(ti, nmax);
+    }
+}
+
+vector<double> System::get_centrosymmetry(){
+
+    vector<double> csm;
+    for (int i=0; i<real_nop; i++){
+        csm.emplace_back(atoms[i].centrosymmetry);
+    }
+    return csm;
+}
-- 
2.43.0


From 68fac440de68178ce130dfa228fa7ca351e35b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 02/80] fix: honour the right keyword of find_solids

---
 src/pyscal/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..c7e914b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -922,6 +922,8 @@ class System(pc.System):
                 raise ValueError("Value of avgthreshold should be between 0 and 1")
 
         #start identification routine
+        #set the direction of the comparison
+        self.comparecriteria = 0 if right else 1
         #check the value of bonds and set criteria depending on that
         if isinstance(bonds, int):
             self.criteria = 0
-- 
2.43.0


From 6dcd2da4fca6ff2958586bcc263479076d453b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 03/80] fix: calculate_disorder compares an atom with its
 neighbors, not with the first atoms of the list

---
 src/pyscal/system.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index c87adb5..618a181 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1591,7 +1591,7 @@ void System::calculate_disorder(){
 
     //for disorder we need sjj which is dot product with itself, self dot prouct of neighbors
     //and cross dot product
-    double sumSquareti,sumSquaretj;
+    double sumSquareti;
     double realdotproduct,imgdotproduct;
     double connection;
     double dis;
@@ -1616,20 +1616,11 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-            for (int mi = 0;mi < 2*solidq+1 ;mi++){
-                sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-                sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-                realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
-                imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-            }
-            connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            connection = get_number_from_bond(ti, tj);
             dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
         }
         atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
-- 
2.43.0


From f9753c7086d91c99077a3b0c4da5ead1e85cc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 04/80] fix: local entropy uses the density of each atom, not
 that of the first one

---
 src/pyscal/system.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 618a181..08f0e5b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2518,10 +2518,13 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
     for(int i=0; i<nop; i++){
         
         atoms[i].sigma = sigma;
+        //a density of zero asks for the local density of each atom
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        else{
+            atoms[i].rho = rho;
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 837c7a50c4edf59f0f9380ef0c1a8753115206fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 05/80] fix: entropy is not NaN where g(r) vanishes

---
 src/pyscal/atom.cpp | 908 ++++++++++++++++++++++----------------------
 1 file changed, 455 insertions(+), 453 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..095d511 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -1,453 +1,455 @@
-#include "atom.h"
-#include <iostream>
-#include <iomanip>
-#include <algorithm>
-#include <stdio.h>
-#include "string.h"
-#include <chrono>
-#include <pybind11/stl.h>
-#include <complex>
-
-//-------------------------------------------------------
-// Constructor, Destructor
-//-------------------------------------------------------
-Atom::Atom( vector<double> pos, int idd, int typ){
-
-    posx = pos[0];
-    posy = pos[1];
-    posz = pos[2];
-    id = idd;
-    type = typ;
-    ghost = 0;
-
-    //assign other values - the default ones
-    belongsto = -1;
-    issolid = 0;
-    issurface = 0;
-    loc = 0;
-    isneighborset = 0;
-    n_neighbors = 0;
-    lcluster = 0;
-    head = -1;
-    entropy = 0;
-    avg_entropy = 0;
-    energy = 0;
-    avg_energy = 0;
-
-
-    for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
-        neighbors[tn] = -1;
-        neighbordist[tn] = -1.0;
-        neighborweight[tn] = -1.0;
-        facevertices[tn] = -1;
-        faceverticenumbers[tn] = -1;
-        faceperimeters[tn] = -1.0;
-        sij[tn] = -1.0;
-        masks[tn] = -1;
-        //edgelengths[tn] = -1.0;
-
-    }
-
-    for (int tn = 0; tn<11; tn++){
-        q[tn] = -1;
-        aq[tn] = -1;
-
-        for (int tnn =0; tnn<25; tnn++){
-            realq[tn][tnn] = -1;
-            imgq[tn][tnn] = -1;
-            arealq[tn][tnn] = -1;
-            aimgq[tn][tnn] = -1;
-        }
-    }
-
-}
-
-Atom::~Atom(){ }
-
-//-------------------------------------------------------
-// Basic Atom properties
-//-------------------------------------------------------
-
-
-//aceesss funcs
-vector<double> Atom::gx(){
-    vector<double> pos;
-    pos.emplace_back(posx);
-    pos.emplace_back(posy);
-    pos.emplace_back(posz);
-    return pos;
-}
-
-void Atom::sx(vector<double> rls){
-    posx = rls[0];
-    posy = rls[1];
-    posz = rls[2];
-}
-
-
-
-//-------------------------------------------------------
-// Neighbor related properties
-//-------------------------------------------------------
-vector<int> Atom::gneighbors(){
-    vector<int> nn;
-    nn.reserve(n_neighbors);
-    for(int i=0;i<n_neighbors;i++){
-        nn.emplace_back(neighbors[i]);
-    }
-    return nn;
-}
-
-void Atom::sneighdist(vector<double> dd){
-}
-
-vector<double> Atom::gneighdist(){
-  vector<double> neighdist;
-  for(int i=0; i<n_neighbors; i++){
-    neighdist.emplace_back(neighbordist[i]);
-  }
-  return neighdist;
-}
-
-void Atom::sneighbors(vector<int> nns){
-
-    //first reset all neighbors
-    for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
-        neighbors[i] = NILVALUE;
-        neighbordist[i] = -1.0;
-    }
-
-    //now assign the neighbors
-    for(int i=0; i<nns.size(); i++){
-        neighbors[i] = nns[i];
-        //auto assign weight to 1
-        neighborweight[i] = 1.00;
-    }
-
-    n_neighbors = nns.size();
-    isneighborset = 1;
-
-}
-
-void Atom::sneighborweights(vector<double> nss){
-    for(int i=0; i<nss.size(); i++){
-        neighborweight[i] = nss[i];
-    }
-}
-
-vector<double> Atom::gneighborweights(){
-    vector <double> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(neighborweight[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sdistvecs(vector<vector<double>> nss){
-
-}
-
-vector<vector<double>> Atom::gdistvecs(){
-    vector<vector<double>> m1;
-    vector <double> m2;
-
-    for(int i=0; i<n_neighbors; i++){
-        m2.clear();
-        m2.emplace_back(n_diffx[i]);
-        m2.emplace_back(n_diffy[i]);
-        m2.emplace_back(n_diffz[i]);
-
-        m1.emplace_back(m2);
-    }
-    return m1;
-}
-
-void Atom::slocalangles(vector<vector<double>> nss){
-
-}
-
-vector<vector<double>> Atom::glocalangles(){
-    vector<vector<double>> m1;
-    vector <double> m2;
-
-    for(int i=0; i<n_neighbors; i++){
-        m2.clear();
-        m2.emplace_back(n_phi[i]);
-        m2.emplace_back(n_theta[i]);
-
-        m1.emplace_back(m2);
-    }
-    return m1;
-}
-
-//-------------------------------------------------------
-// Q parameter properties
-//-------------------------------------------------------
-void Atom::ssij(vector<double> dd){
-}
-
-vector<double> Atom::gsij(){
-  vector<double> ss;
-  for(int i=0; i<n_neighbors; i++){
-    ss.emplace_back(sij[i]);
-  }
-  return ss;
-}
-
-vector<double> Atom::gallq(){
-    vector<double> allq;
-    for(int i=0; i<11; i++){
-        allq.emplace_back(q[i]);
-    }
-    return allq;
-}
-
-vector<double> Atom::gallaq(){
-    vector<double> allq;
-    for(int i=0; i<11; i++){
-        allq.emplace_back(aq[i]);
-    }
-    return allq;
-}
-
-void Atom::sallq(vector<double> allq){
-    for(int i=0; i<11; i++){
-        q[i] = allq[i];
-    }
-}
-
-void Atom::sallaq(vector<double> allaq){
-    for(int i=0; i<11; i++){
-        aq[i] = allaq[i];
-    }
-}
-double Atom::gq(int qq){ return q[qq-2]; }
-void Atom::sq(int qq, double qval){ q[qq-2] = qval; }
-
-double Atom::gaq(int qq){ return aq[qq-2]; }
-void Atom::saq(int qq, double qval){ aq[qq-2] = qval; }
-
-double Atom::gq_big(int qval, bool averaged){
-
-    if ((qval < 2) || (qval > 12)){
-        throw invalid_argument("q value should be between 2-12");
-    }
-    if(averaged == true) { return gaq(qval);}
-    else {return gq(qval);}
-}
-
-void Atom::sq_big(int qval, double val,  bool averaged){
-
-    if ((qval < 2) || (qval > 12)){
-        throw invalid_argument("q value should be between 2-12");
-    }
-    if(averaged == true) { saq(qval, val);}
-    else { sq(qval, val);}
-}
-
-//overloaded version which takes a vector
-vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
-    int d;
-    if(averaged == true) {
-        vector<double> retvals;
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            retvals.push_back(gaq(qval[i]));
-        }
-        return retvals;
-    }
-    else {
-        vector<double> retvals;
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            retvals.push_back(gq(qval[i]));
-        }
-        return retvals;
-    }
-}
-
-//overloaded version which takes a vector
-void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
-
-    if(averaged == true) {
-
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-
-            saq(qval[i], setvals[i]);
-        }
-    }
-    else {
-
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            sq(qval[i], setvals[i]);
-        }
-    }
-}
-
-
-vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
-
-  vector<complex<double>> qlms;
-  qlms.reserve(2*qq+1);
-  if (!averaged){
-    for(int i=0;i<(2*qq+1);i++){
-        complex<double> lmval(realq[qq-2][i], imgq[qq-2][i]);
-        qlms.emplace_back(lmval);
-    }
-  }
-  else{
-    for(int i=0;i<(2*qq+1);i++){
-        complex<double> lmval(arealq[qq-2][i], aimgq[qq-2][i]);
-        qlms.emplace_back(lmval);
-    }
-  }
-  return qlms;
-}
-
-
-//-------------------------------------------------------
-// Solid related properties
-//-------------------------------------------------------
-
-
-
-
-//-------------------------------------------------------
-// Voronoi related properties
-//-------------------------------------------------------
-void Atom::sfacevertices(vector<int> nss){
-    for(int i=0; i<nss.size(); i++){
-        facevertices[i] = nss[i];
-    }
-}
-
-vector<int> Atom::gfacevertices(){
-    vector <int> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(facevertices[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sfaceperimeters(vector<double> nss){
-    for(int i=0; i<nss.size(); i++){
-        faceperimeters[i] = nss[i];
-    }
-}
-
-vector<double> Atom::gfaceperimeters(){
-    vector <double> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(faceperimeters[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sedgelengths(vector<vector<double>> nss){
-    edgelengths.clear();
-    edgelengths = nss;
-}
-
-vector<vector<double>> Atom::gedgelengths(){
-    return edgelengths;
-}
-
-void Atom::svertexpositions(vector<vector<double>> nss){
-    vertex_positions.clear();
-    vertex_positions = nss;
-}
-
-vector<vector<double>> Atom::gvertexpositions(){
-    return vertex_positions;
-}
-
-vector<int> Atom::gvorovector(){
-    vector<int> voro;
-    voro.emplace_back(n3);
-    voro.emplace_back(n4);
-    voro.emplace_back(n5);
-    voro.emplace_back(n6);
-    return voro;
-}
-
-void Atom::svorovector(vector<int> voro){
-
-    n3 = voro[0];
-    n4 = voro[1];
-    n5 = voro[2];
-    n6 = voro[3];
-}
-
-//-------------------------------------------------------
-// Angle related properties
-//-------------------------------------------------------
-
-
-//-------------------------------------------------------
-// Other order parameters
-//-------------------------------------------------------
-
-double Atom::gmr(double r)
-{
-        double g = 0.00;
-        double rij,r2;
-        double sigma2 = sigma*sigma;
-        double frho = 4.00*PI*rho*r*r;
-        double fsigma = sqrt(2.00*PI*sigma2);
-        double factor = (1.00/frho)*(1.00/fsigma);
-
-        for(int i=0; i<n_neighbors; i++)
-        {
-                rij = neighbordist[i];
-                r2 = (r-rij)*(r-rij);
-                g+=exp((-1.00*r2)/(2.00*sigma2));
-        }
-
-        return factor*g;
-}
-
-//function which is to be integrated
-double Atom::entropy_integrand(double r)
-{
-        double g = gmr(r);
-        return ((g*log(g)-g +1.00)*r*r);
-}
-
-
-void Atom::trapezoid_integration()
-{
-
-        int nsteps = (rstop - rstart)/h;
-        double summ;
-        double xstart, xend;
-        summ=0.00;
-        double rloop;
-        double integral;
-
-        xstart = entropy_integrand(rstart);
-
-        for(int j=1; j<nsteps-1; j++)
-        {
-
-                rloop = rstart + j*h;
-                summ += entropy_integrand(rloop);
-
-        }
-
-        xend = entropy_integrand(rstart + nsteps*h);
-        integral = (h/2.00)*(xstart + 2.00*summ + xend);
-        //cout<<xstart<<endl;
-        integral = -1.*rho*kb*integral;
-        entropy = integral;
-}
-
+#include "atom.h"
+#include <iostream>
+#include <iomanip>
+#include <algorithm>
+#include <stdio.h>
+#include "string.h"
+#include <chrono>
+#include <pybind11/stl.h>
+#include <complex>
+
+//-------------------------------------------------------
+// Constructor, Destructor
+//-------------------------------------------------------
+Atom::Atom( vector<double> pos, int idd, int typ){
+
+    posx = pos[0];
+    posy = pos[1];
+    posz = pos[2];
+    id = idd;
+    type = typ;
+    ghost = 0;
+
+    //assign other values - the default ones
+    belongsto = -1;
+    issolid = 0;
+    issurface = 0;
+    loc = 0;
+    isneighborset = 0;
+    n_neighbors = 0;
+    lcluster = 0;
+    head = -1;
+    entropy = 0;
+    avg_entropy = 0;
+    energy = 0;
+    avg_energy = 0;
+
+
+    for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
+        neighbors[tn] = -1;
+        neighbordist[tn] = -1.0;
+        neighborweight[tn] = -1.0;
+        facevertices[tn] = -1;
+        faceverticenumbers[tn] = -1;
+        faceperimeters[tn] = -1.0;
+        sij[tn] = -1.0;
+        masks[tn] = -1;
+        //edgelengths[tn] = -1.0;
+
+    }
+
+    for (int tn = 0; tn<11; tn++){
+        q[tn] = -1;
+        aq[tn] = -1;
+
+        for (int tnn =0; tnn<25; tnn++){
+            realq[tn][tnn] = -1;
+            imgq[tn][tnn] = -1;
+            arealq[tn][tnn] = -1;
+            aimgq[tn][tnn] = -1;
+        }
+    }
+
+}
+
+Atom::~Atom(){ }
+
+//-------------------------------------------------------
+// Basic Atom properties
+//-------------------------------------------------------
+
+
+//aceesss funcs
+vector<double> Atom::gx(){
+    vector<double> pos;
+    pos.emplace_back(posx);
+    pos.emplace_back(posy);
+    pos.emplace_back(posz);
+    return pos;
+}
+
+void Atom::sx(vector<double> rls){
+    posx = rls[0];
+    posy = rls[1];
+    posz = rls[2];
+}
+
+
+
+//-------------------------------------------------------
+// Neighbor related properties
+//-------------------------------------------------------
+vector<int> Atom::gneighbors(){
+    vector<int> nn;
+    nn.reserve(n_neighbors);
+    for(int i=0;i<n_neighbors;i++){
+        nn.emplace_back(neighbors[i]);
+    }
+    return nn;
+}
+
+void Atom::sneighdist(vector<double> dd){
+}
+
+vector<double> Atom::gneighdist(){
+  vector<double> neighdist;
+  for(int i=0; i<n_neighbors; i++){
+    neighdist.emplace_back(neighbordist[i]);
+  }
+  return neighdist;
+}
+
+void Atom::sneighbors(vector<int> nns){
+
+    //first reset all neighbors
+    for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
+        neighbors[i] = NILVALUE;
+        neighbordist[i] = -1.0;
+    }
+
+    //now assign the neighbors
+    for(int i=0; i<nns.size(); i++){
+        neighbors[i] = nns[i];
+        //auto assign weight to 1
+        neighborweight[i] = 1.00;
+    }
+
+    n_neighbors = nns.size();
+    isneighborset = 1;
+
+}
+
+void Atom::sneighborweights(vector<double> nss){
+    for(int i=0; i<nss.size(); i++){
+        neighborweight[i] = nss[i];
+    }
+}
+
+vector<double> Atom::gneighborweights(){
+    vector <double> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(neighborweight[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sdistvecs(vector<vector<double>> nss){
+
+}
+
+vector<vector<double>> Atom::gdistvecs(){
+    vector<vector<double>> m1;
+    vector <double> m2;
+
+    for(int i=0; i<n_neighbors; i++){
+        m2.clear();
+        m2.emplace_back(n_diffx[i]);
+        m2.emplace_back(n_diffy[i]);
+        m2.emplace_back(n_diffz[i]);
+
+        m1.emplace_back(m2);
+    }
+    return m1;
+}
+
+void Atom::slocalangles(vector<vector<double>> nss){
+
+}
+
+vector<vector<double>> Atom::glocalangles(){
+    vector<vector<double>> m1;
+    vector <double> m2;
+
+    for(int i=0; i<n_neighbors; i++){
+        m2.clear();
+        m2.emplace_back(n_phi[i]);
+        m2.emplace_back(n_theta[i]);
+
+        m1.emplace_back(m2);
+    }
+    return m1;
+}
+
+//-------------------------------------------------------
+// Q parameter properties
+//-------------------------------------------------------
+void Atom::ssij(vector<double> dd){
+}
+
+vector<double> Atom::gsij(){
+  vector<double> ss;
+  for(int i=0; i<n_neighbors; i++){
+    ss.emplace_back(sij[i]);
+  }
+  return ss;
+}
+
+vector<double> Atom::gallq(){
+    vector<double> allq;
+    for(int i=0; i<11; i++){
+        allq.emplace_back(q[i]);
+    }
+    return allq;
+}
+
+vector<double> Atom::gallaq(){
+    vector<double> allq;
+    for(int i=0; i<11; i++){
+        allq.emplace_back(aq[i]);
+    }
+    return allq;
+}
+
+void Atom::sallq(vector<double> allq){
+    for(int i=0; i<11; i++){
+        q[i] = allq[i];
+    }
+}
+
+void Atom::sallaq(vector<double> allaq){
+    for(int i=0; i<11; i++){
+        aq[i] = allaq[i];
+    }
+}
+double Atom::gq(int qq){ return q[qq-2]; }
+void Atom::sq(int qq, double qval){ q[qq-2] = qval; }
+
+double Atom::gaq(int qq){ return aq[qq-2]; }
+void Atom::saq(int qq, double qval){ aq[qq-2] = qval; }
+
+double Atom::gq_big(int qval, bool averaged){
+
+    if ((qval < 2) || (qval > 12)){
+        throw invalid_argument("q value should be between 2-12");
+    }
+    if(averaged == true) { return gaq(qval);}
+    else {return gq(qval);}
+}
+
+void Atom::sq_big(int qval, double val,  bool averaged){
+
+    if ((qval < 2) || (qval > 12)){
+        throw invalid_argument("q value should be between 2-12");
+    }
+    if(averaged == true) { saq(qval, val);}
+    else { sq(qval, val);}
+}
+
+//overloaded version which takes a vector
+vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
+    int d;
+    if(averaged == true) {
+        vector<double> retvals;
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            retvals.push_back(gaq(qval[i]));
+        }
+        return retvals;
+    }
+    else {
+        vector<double> retvals;
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            retvals.push_back(gq(qval[i]));
+        }
+        return retvals;
+    }
+}
+
+//overloaded version which takes a vector
+void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
+
+    if(averaged == true) {
+
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+
+            saq(qval[i], setvals[i]);
+        }
+    }
+    else {
+
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            sq(qval[i], setvals[i]);
+        }
+    }
+}
+
+
+vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
+
+  vector<complex<double>> qlms;
+  qlms.reserve(2*qq+1);
+  if (!averaged){
+    for(int i=0;i<(2*qq+1);i++){
+        complex<double> lmval(realq[qq-2][i], imgq[qq-2][i]);
+        qlms.emplace_back(lmval);
+    }
+  }
+  else{
+    for(int i=0;i<(2*qq+1);i++){
+        complex<double> lmval(arealq[qq-2][i], aimgq[qq-2][i]);
+        qlms.emplace_back(lmval);
+    }
+  }
+  return qlms;
+}
+
+
+//-------------------------------------------------------
+// Solid related properties
+//-------------------------------------------------------
+
+
+
+
+//-------------------------------------------------------
+// Voronoi related properties
+//-------------------------------------------------------
+void Atom::sfacevertices(vector<int> nss){
+    for(int i=0; i<nss.size(); i++){
+        facevertices[i] = nss[i];
+    }
+}
+
+vector<int> Atom::gfacevertices(){
+    vector <int> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(facevertices[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sfaceperimeters(vector<double> nss){
+    for(int i=0; i<nss.size(); i++){
+        faceperimeters[i] = nss[i];
+    }
+}
+
+vector<double> Atom::gfaceperimeters(){
+    vector <double> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(faceperimeters[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sedgelengths(vector<vector<double>> nss){
+    edgelengths.clear();
+    edgelengths = nss;
+}
+
+vector<vector<double>> Atom::gedgelengths(){
+    return edgelengths;
+}
+
+void Atom::svertexpositions(vector<vector<double>> nss){
+    vertex_positions.clear();
+    vertex_positions = nss;
+}
+
+vector<vector<double>> Atom::gvertexpositions(){
+    return vertex_positions;
+}
+
+vector<int> Atom::gvorovector(){
+    vector<int> voro;
+    voro.emplace_back(n3);
+    voro.emplace_back(n4);
+    voro.emplace_back(n5);
+    voro.emplace_back(n6);
+    return voro;
+}
+
+void Atom::svorovector(vector<int> voro){
+
+    n3 = voro[0];
+    n4 = voro[1];
+    n5 = voro[2];
+    n6 = voro[3];
+}
+
+//-------------------------------------------------------
+// Angle related properties
+//-------------------------------------------------------
+
+
+//-------------------------------------------------------
+// Other order parameters
+//-------------------------------------------------------
+
+double Atom::gmr(double r)
+{
+        double g = 0.00;
+        double rij,r2;
+        double sigma2 = sigma*sigma;
+        double frho = 4.00*PI*rho*r*r;
+        double fsigma = sqrt(2.00*PI*sigma2);
+        double factor = (1.00/frho)*(1.00/fsigma);
+
+        for(int i=0; i<n_neighbors; i++)
+        {
+                rij = neighbordist[i];
+                r2 = (r-rij)*(r-rij);
+                g+=exp((-1.00*r2)/(2.00*sigma2));
+        }
+
+        return factor*g;
+}
+
+//function which is to be integrated
+double Atom::entropy_integrand(double r)
+{
+        double g = gmr(r);
+        //g*log(g) goes to zero with g
+        if (g <= 0) return r*r;
+        return ((g*log(g)-g +1.00)*r*r);
+}
+
+
+void Atom::trapezoid_integration()
+{
+
+        int nsteps = (rstop - rstart)/h;
+        double summ;
+        double xstart, xend;
+        summ=0.00;
+        double rloop;
+        double integral;
+
+        xstart = entropy_integrand(rstart);
+
+        for(int j=1; j<nsteps-1; j++)
+        {
+
+                rloop = rstart + j*h;
+                summ += entropy_integrand(rloop);
+
+        }
+
+        xend = entropy_integrand(rstart + nsteps*h);
+        integral = (h/2.00)*(xstart + 2.00*summ + xend);
+        //cout<<xstart<<endl;
+        integral = -1.*rho*kb*integral;
+        entropy = integral;
+}
+
-- 
2.43.0


From 704471c6b180f82e3b23703963864d140ad19530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 06/80] fix: sann read past the end of its list of candidates

---
 src/pyscal/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 08f0e5b..8093f3d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1163,6 +1163,8 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            //all candidates are used up, there is nothing beyond the last one
+            if (m == maxneighs) break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
-- 
2.43.0


From cf6c9185830b8fb84d1089c79343d2ee8e8509f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 07/80] fix: adaptive neighbors after voronoi left q values
 unnormalised

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8093f3d..8ff3820 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1197,6 +1197,9 @@ int System::get_all_neighbors_sann(double prefactor){
 
 int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
 
+    //reset voronoi flag
+    voronoiused = 0;
+
     double d, dcut;
     double diffx,diffy,diffz;
     double r,theta,phi;
-- 
2.43.0


From de29b6a496be8d080c8e0ac5c8e3dce9d3f9d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 08/80] fix: vertex_positions piled up when voronoi neighbors
 were found again

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8ff3820..1d9c353 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1956,6 +1956,7 @@ void System::get_all_neighbors_voronoi(){
             //clean up and add vertex positions
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
+            atoms[ti].vertex_positions.clear();
             for(int si=0; si<nverts; si++){
                 vector<double> temp;
                 int li=0;
-- 
2.43.0


From 27f8fce43988f78ece538e98007abbf505127f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 09/80] fix: cna mixed candidates left over from an earlier
 neighbor search into its own

---
 src/pyscal/system.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1d9c353..46ac121 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -819,6 +819,10 @@ void System::get_temp_neighbors_brute(){
     double d;
     double diffx,diffy,diffz;
 
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].temp_neighbors.clear();
+    }
+
     for (int ti=0; ti<nop; ti++){
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
@@ -848,6 +852,10 @@ void System::get_temp_neighbors_cells(){
     double d;
     double diffx,diffy,diffz;
 
+    for (int i=0; i<nop; i++){
+        atoms[i].temp_neighbors.clear();
+    }
+
     //now loop to find distance
     for(int i=0; i<total_cells; i++){
         //now go over the neighbor cells
-- 
2.43.0


From 62e6863d89eea18b6764ec3840de842a1fbdf982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 10/80] fix: cna and centrosymmetry used unfinished neighbor
 lists in inhomogeneous systems

---
 src/pyscal/system.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 46ac121..c58c21b 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2447,7 +2447,15 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
-    get_all_neighbors_bynumber(3, 14, 0);
+    //look further if the guessed distance did not yield enough candidates
+    double prefactor = 3;
+    int found = get_all_neighbors_bynumber(prefactor, 14, 0);
+    for(int i=0; (i<20) && (!found); i++){
+        prefactor *= 2;
+        found = get_all_neighbors_bynumber(prefactor, 14, 0);
+    }
+    if (!found)
+        throw runtime_error("Could not find enough neighbors for common neighbor analysis");
 
     //first we start by checking for 12 CN 
     //CNA method
@@ -2589,7 +2597,16 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    //look further if the guessed distance did not yield enough candidates
+    double prefactor = 3;
+    int found = get_all_neighbors_bynumber(prefactor, nmax, 1);
+    for(int i=0; (i<20) && (!found); i++){
+        prefactor *= 2;
+        reset_all_neighbors();
+        found = get_all_neighbors_bynumber(prefactor, nmax, 1);
+    }
+    if (!found)
+        throw runtime_error("Could not find enough neighbors for centrosymmetry");
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From d56041058f3806c5d2e3cd3f2b381fd71f27ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 11/80] fix: cell lists were used for triclinic boxes and for
 boxes of less than three cells

---
 src/pyscal/system.cpp |  16 ++
 src/pyscal/system.h   | 369 +++++++++++++++++++++---------------------
 2 files changed, 201 insertions(+), 184 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index c58c21b..7dc222d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -489,6 +489,12 @@ int System::cell_index(int cx, int cy, int cz){
 
 //if number of particles are small, use brute force
 //if box is triclinic, use brute force
+//with less than three cells along a direction a cell is its own neighbor more than once
+bool System::cells_possible(){
+    if (triclinic == 1) return false;
+    return ((boxx/neighbordistance >= 3) && (boxy/neighbordistance >= 3) && (boxz/neighbordistance >= 3));
+}
+
 void System::set_up_cells(){
 
       int si,sj,sk, maincell, subcell;
@@ -652,6 +658,11 @@ void System::get_all_neighbors_cells(){
     double diffx,diffy,diffz;
     double r,theta,phi;
     int ti, tj;
+    if (!cells_possible()){
+        get_all_neighbors_normal();
+        return;
+    }
+
     //first create cells
     set_up_cells();
     int maincell, subcell;
@@ -844,6 +855,11 @@ about 2000 atoms.
 */
 void System::get_temp_neighbors_cells(){
 
+    if (!cells_possible()){
+        get_temp_neighbors_brute();
+        return;
+    }
+
     //first create cells
     set_up_cells();
 
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..e1e0b4f 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -1,184 +1,185 @@
-#include <iostream>
-#include <iostream>
-#include <exception>
-#include <math.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <fstream>
-#include <string>
-#include <sstream>
-#include <time.h>
-#include <vector>
-#include <vector>
-#include <pybind11/pybind11.h>
-#include <pybind11/numpy.h>
-#include <pybind11/stl.h>
-#include "atom.h"
-
-namespace py = pybind11;
-using namespace std;
-
-struct cell{
-  vector<int> members;
-  vector<int> neighbor_cells;
-};
-
-
-class System{
-
-    public:
-
-        //-----------------------------------------------------
-        // Constructor, Destructor and Access functions
-        //-----------------------------------------------------
-        System();
-        ~System();
-        int nop;
-        int ghost_nop;
-        int real_nop;
-
-        //-----------------------------------------------------
-        // Simulation box related methods
-        //-----------------------------------------------------
-        double rot[3][3];
-        double rotinv[3][3];
-        int triclinic;
-        double boxx, boxy, boxz;
-        double boxdims[3][2];
-        double box[3][3];
-        void assign_triclinic_params(vector<vector<double>>, vector<vector<double>>);
-        vector<vector<double>> get_triclinic_params();
-        void sbox(vector<vector<double>>);
-        vector<vector<double>> gbox();
-        vector<double> remap_atom(vector<double>);
-
-        //-----------------------------------------------------
-        // Atom related methods
-        //-----------------------------------------------------
-        vector<Atom> atoms;
-        void assign_particles( vector<Atom>);
-        void read_particle_file(string);    // TBDep
-        void set_atoms( vector<Atom>);
-        vector<Atom> get_atoms();
-        void add_atoms( vector<Atom>);
-        vector<Atom> get_all_atoms();
-        Atom gatom(int);
-        void satom(Atom);
-
-
-        //----------------------------------------------------
-        // Neighbor methods
-        //----------------------------------------------------
-        int filter;
-        int usecells;
-        int nx, ny, nz;
-        int total_cells;
-        cell *cells;
-        double neighbordistance;
-        void get_all_neighbors_normal();
-        void process_neighbor(int, int);
-        int get_all_neighbors_sann(double);
-        int get_all_neighbors_bynumber(double, int, int);
-        int get_neighbors_from_temp(int);
-        int get_all_neighbors_adaptive(double, int, double);
-        void get_all_neighbors_voronoi();
-        void reset_all_neighbors();
-        void reset_main_neighbors();        
-        double get_abs_distance(int,int,double&,double&,double&);
-        double get_abs_distance(Atom , Atom );
-        vector<double> get_distance_vector(Atom , Atom);
-        void set_neighbordistance(double);
-        vector<double> get_pairdistances();
-        //variables for a filter
-        void susecells(int);
-        int gusecells();
-        int cell_index(int, int, int);
-        void set_up_cells();
-        vector<int> cell_periodic(int, int, int);
-        void get_all_neighbors_cells();
-        void get_temp_neighbors_cells();
-        void get_temp_neighbors_brute();
-        void store_neighbor_info();
-        void set_atom_cutoff(double);
-
-        //---------------------------------------------------
-        // Methods for q calculation
-        //---------------------------------------------------
-        int *reqdqs;
-        int lenqs;
-        int *reqdaqs;
-        int lenaqs;
-        vector<double> gqvals(int qq);
-        vector<double> gaqvals(int qq);
-        vector<int> rq_backup;
-        void set_reqd_qs(vector<int>);
-        void set_reqd_aqs(vector<int>);
-        void calculate_q(vector <int>);
-        void calculate_aq(vector <int>);
-        double dfactorial(int ,int );
-        void convert_to_spherical_coordinates(double , double , double , double &, double &, double &);
-        double PLM(int, int, double);
-        void YLM(int , int , double , double , double &, double &);
-        void QLM(int ,int ,double ,double ,double &, double & );
-        void calculate_complexQLM_6();
-        double get_number_from_bond(int,int);
-        double get_number_from_bond(Atom ,Atom );
-        void calculate_frenkel_numbers();
-        //disorder vars
-        void calculate_disorder();
-        void find_average_disorder();        
-
-        //-----------------------------------------------------
-        // Solids and Clustering methods
-        //-----------------------------------------------------
-        double minfrenkel;
-        double threshold;
-        double avgthreshold;
-        int maxclusterid;
-        int solidq;
-        int criteria;
-        int comparecriteria;
-        void find_solid_atoms();
-        void find_clusters(double);
-        void harvest_cluster(const int, const int);
-        void find_clusters_recursive(double);
-        int largest_cluster();
-        void set_nucsize_parameters(double,double,double);
-        void get_largest_cluster_atoms();
-
-        //-----------------------------------------------------
-        // Voronoi based methods
-        //-----------------------------------------------------
-        int alpha;
-        void find_average_volume();
-        int voronoiused;
-        double face_cutoff;
-        void set_face_cutoff(double);
-
-        //-------------------------------------------------------
-        // CNA parameters
-        //-------------------------------------------------------
-        double lattice_constant;
-        void get_diamond_neighbors();
-        vector<int> identify_diamond_structure();
-        void identify_cndia();
-        void get_cna_neighbors(int);
-        void get_acna_neighbors(int);
-        void get_common_neighbors(int);
-        void get_common_bonds(int);
-        void identify_cn12();
-        void identify_cn14();
-        vector<int> calculate_cna(int);
-
-        //-------------------------------------------------------
-        // Other order parameters
-        //-------------------------------------------------------
-        double switching_fn(double, double, int, int);
-        void average_entropy();
-        void average_entropy_switch(double, int, int);
-        void entropy(double, double, double, double, double, double);
-        void calculate_centrosymmetry_atom(int, int);
-        void calculate_centrosymmetry(int);
-        vector<double> get_centrosymmetry();
-
-};
+#include <iostream>
+#include <iostream>
+#include <exception>
+#include <math.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <fstream>
+#include <string>
+#include <sstream>
+#include <time.h>
+#include <vector>
+#include <vector>
+#include <pybind11/pybind11.h>
+#include <pybind11/numpy.h>
+#include <pybind11/stl.h>
+#include "atom.h"
+
+namespace py = pybind11;
+using namespace std;
+
+struct cell{
+  vector<int> members;
+  vector<int> neighbor_cells;
+};
+
+
+class System{
+
+    public:
+
+        //-----------------------------------------------------
+        // Constructor, Destructor and Access functions
+        //-----------------------------------------------------
+        System();
+        ~System();
+        int nop;
+        int ghost_nop;
+        int real_nop;
+
+        //-----------------------------------------------------
+        // Simulation box related methods
+        //-----------------------------------------------------
+        double rot[3][3];
+        double rotinv[3][3];
+        int triclinic;
+        double boxx, boxy, boxz;
+        double boxdims[3][2];
+        double box[3][3];
+        void assign_triclinic_params(vector<vector<double>>, vector<vector<double>>);
+        vector<vector<double>> get_triclinic_params();
+        void sbox(vector<vector<double>>);
+        vector<vector<double>> gbox();
+        vector<double> remap_atom(vector<double>);
+
+        //-----------------------------------------------------
+        // Atom related methods
+        //-----------------------------------------------------
+        vector<Atom> atoms;
+        void assign_particles( vector<Atom>);
+        void read_particle_file(string);    // TBDep
+        void set_atoms( vector<Atom>);
+        vector<Atom> get_atoms();
+        void add_atoms( vector<Atom>);
+        vector<Atom> get_all_atoms();
+        Atom gatom(int);
+        void satom(Atom);
+
+
+        //----------------------------------------------------
+        // Neighbor methods
+        //----------------------------------------------------
+        int filter;
+        int usecells;
+        int nx, ny, nz;
+        int total_cells;
+        cell *cells;
+        double neighbordistance;
+        void get_all_neighbors_normal();
+        void process_neighbor(int, int);
+        int get_all_neighbors_sann(double);
+        int get_all_neighbors_bynumber(double, int, int);
+        int get_neighbors_from_temp(int);
+        int get_all_neighbors_adaptive(double, int, double);
+        void get_all_neighbors_voronoi();
+        void reset_all_neighbors();
+        void reset_main_neighbors();        
+        double get_abs_distance(int,int,double&,double&,double&);
+        double get_abs_distance(Atom , Atom );
+        vector<double> get_distance_vector(Atom , Atom);
+        void set_neighbordistance(double);
+        vector<double> get_pairdistances();
+        //variables for a filter
+        void susecells(int);
+        int gusecells();
+        int cell_index(int, int, int);
+        bool cells_possible();
+        void set_up_cells();
+        vector<int> cell_periodic(int, int, int);
+        void get_all_neighbors_cells();
+        void get_temp_neighbors_cells();
+        void get_temp_neighbors_brute();
+        void store_neighbor_info();
+        void set_atom_cutoff(double);
+
+        //---------------------------------------------------
+        // Methods for q calculation
+        //---------------------------------------------------
+        int *reqdqs;
+        int lenqs;
+        int *reqdaqs;
+        int lenaqs;
+        vector<double> gqvals(int qq);
+        vector<double> gaqvals(int qq);
+        vector<int> rq_backup;
+        void set_reqd_qs(vector<int>);
+        void set_reqd_aqs(vector<int>);
+        void calculate_q(vector <int>);
+        void calculate_aq(vector <int>);
+        double dfactorial(int ,int );
+        void convert_to_spherical_coordinates(double , double , double , double &, double &, double &);
+        double PLM(int, int, double);
+        void YLM(int , int , double , double , double &, double &);
+        void QLM(int ,int ,double ,double ,double &, double & );
+        void calculate_complexQLM_6();
+        double get_number_from_bond(int,int);
+        double get_number_from_bond(Atom ,Atom );
+        void calculate_frenkel_numbers();
+        //disorder vars
+        void calculate_disorder();
+        void find_average_disorder();        
+
+        //-----------------------------------------------------
+        // Solids and Clustering methods
+        //-----------------------------------------------------
+        double minfrenkel;
+        double threshold;
+        double avgthreshold;
+        int maxclusterid;
+        int solidq;
+        int criteria;
+        int comparecriteria;
+        void find_solid_atoms();
+        void find_clusters(double);
+        void harvest_cluster(const int, const int);
+        void find_clusters_recursive(double);
+        int largest_cluster();
+        void set_nucsize_parameters(double,double,double);
+        void get_largest_cluster_atoms();
+
+        //-----------------------------------------------------
+        // Voronoi based methods
+        //-----------------------------------------------------
+        int alpha;
+        void find_average_volume();
+        int voronoiused;
+        double face_cutoff;
+        void set_face_cutoff(double);
+
+        //-------------------------------------------------------
+        // CNA parameters
+        //-------------------------------------------------------
+        double lattice_constant;
+        void get_diamond_neighbors();
+        vector<int> identify_diamond_structure();
+        void identify_cndia();
+        void get_cna_neighbors(int);
+        void get_acna_neighbors(int);
+        void get_common_neighbors(int);
+        void get_common_bonds(int);
+        void identify_cn12();
+        void identify_cn14();
+        vector<int> calculate_cna(int);
+
+        //-------------------------------------------------------
+        // Other order parameters
+        //-------------------------------------------------------
+        double switching_fn(double, double, int, int);
+        void average_entropy();
+        void average_entropy_switch(double, int, int);
+        void entropy(double, double, double, double, double, double);
+        void calculate_centrosymmetry_atom(int, int);
+        void calculate_centrosymmetry(int);
+        vector<double> get_centrosymmetry();
+
+};
-- 
2.43.0


From adc3d324298c671b4c1d2d03d93dc450767a4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 12/80] fix: atoms more than a box length from the origin were
 put in cells that do not exist

---
 src/pyscal/system.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7dc222d..78c0b91 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -552,17 +552,15 @@ void System::set_up_cells(){
           if( abs(dz-0) < 1E-6)
               dz = 0;
 
-          if (dx < 0) dx+=boxx;
-          else if (dx >= boxx) dx-=boxx;
-          if (dy < 0) dy+=boxy;
-          else if (dy >= boxy) dy-=boxy;
-          if (dz < 0) dz+=boxz;
-          else if (dz >= boxz) dz-=boxz;
-
-          //now find c vals
-          cx = dx/lx;
-          cy = dy/ly;
-          cz = dz/lz;
+          //atoms can be any number of boxes away from the origin
+          dx -= boxx*floor(dx/boxx);
+          dy -= boxy*floor(dy/boxy);
+          dz -= boxz*floor(dz/boxz);
+
+          //now find c vals; rounding must not lead out of the last cell
+          cx = min(int(dx/lx), nx-1);
+          cy = min(int(dy/ly), ny-1);
+          cz = min(int(dz/lz), nz-1);
 
           //now get cell index
           ind = cell_index(cx, cy, cz);
-- 
2.43.0


From 422d7d2657d2c32b6593ae2ca71a0a4cebce6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 13/80] fix: cell lists were never released

---
 src/pyscal/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 78c0b91..cd4f8ed 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -30,6 +30,7 @@ System::System(){
     comparecriteria = 0;
     
     neighbordistance = 0;
+    cells = NULL;
 
     //set box with zeros
     for(int i=0; i<3; i++){
@@ -510,6 +511,7 @@ void System::set_up_cells(){
       //find the total number of cells
       total_cells = nx*ny*nz;
       //create a vector of cells
+      delete[] cells;
       cells = new cell[total_cells];
       //now run over and for each cell create its neighbor cells
       //all neighbor cells are also added
-- 
2.43.0


From 8c29965332dec7f50f272b2933c33665e7d8245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 14/80] fix: the filter of voronoi neighbors looked at the
 wrong atoms and left gaps in the lists

---
 src/pyscal/system.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index cd4f8ed..8845b21 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2002,27 +2002,29 @@ void System::get_all_neighbors_voronoi(){
             for (int tj=0; tj<neigh.size(); tj++){
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                     continue;
                 }
-                atoms[ti].neighbors[tj] = neigh[tj];
+                //faces can be left out by the filter, so neighbors are counted on their own
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].neighbors[nn] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[tj] = d;
+                atoms[ti].neighbordist[nn] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
-                atoms[ti].n_diffx[tj] = diffx;
-                atoms[ti].n_diffy[tj] = diffy;
-                atoms[ti].n_diffz[tj] = diffz;
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
                 convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[tj] = r;
-                atoms[ti].n_phi[tj] = phi;
-                atoms[ti].n_theta[tj] = theta;
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
 
             }
 
-- 
2.43.0


From 71cf74d7cf4709e768e3231a2751b991744746f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 15/80] fix: number and sann neighbors ignored the type filter

---
 src/pyscal/system.cpp | 23 +++++++++++++++++++----
 src/pyscal/system.h   |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8845b21..9cf7d5e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -791,6 +791,15 @@ void System::get_all_neighbors_normal(){
 
 }
 
+bool System::is_filtered(int ti, int tj){
+    /*
+    Check if the type filter leaves out tj as a neighbor of ti
+     */
+    if ((filter == 1) && (atoms[ti].type != atoms[tj].type)) return true;
+    if ((filter == 2) && (atoms[ti].type == atoms[tj].type)) return true;
+    return false;
+}
+
 void System::process_neighbor(int ti, int tj){
     /*
     Calculate all info and add it to list
@@ -970,11 +979,15 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
 
         if(assign == 1){
-            //assign the neighbors
-            for(int i=0; i<nns; i++){
+            //assign the closest neighbors that pass the filter
+            for(int i=0; (i<atoms[ti].temp_neighbors.size()) && (atoms[ti].n_neighbors<nns); i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
+                if (is_filtered(ti, tj)) continue;
                 process_neighbor(ti, tj);
             }
+            if (atoms[ti].n_neighbors < nns){
+                return 0;
+            }
         }
 
         finished = 1;            
@@ -1177,7 +1190,7 @@ int System::get_all_neighbors_sann(double prefactor){
         for(int i=0 ; i<m; i++){
             summ += atoms[ti].temp_neighbors[i].dist;
             int tj = atoms[ti].temp_neighbors[i].index;
-            process_neighbor(ti, tj);
+            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
         }
 
         //find cutoff
@@ -1192,7 +1205,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
-            process_neighbor(ti, tj);
+            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
 
             //find new dcut
             summ = summ + atoms[ti].temp_neighbors[m].dist;
@@ -2615,6 +2628,8 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
+    //the type filter of an earlier neighbor search does not apply here
+    filter = 0;
     //look further if the guessed distance did not yield enough candidates
     double prefactor = 3;
     int found = get_all_neighbors_bynumber(prefactor, nmax, 1);
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index e1e0b4f..3c93de2 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -76,6 +76,7 @@ class System{
         cell *cells;
         double neighbordistance;
         void get_all_neighbors_normal();
+        bool is_filtered(int, int);
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
-- 
2.43.0


From 15d71e0f5a8b2ef51756d13f28a5681a122f8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 16/80] fix: number neighbors left the cutoff of atoms, used
 for clustering, unset

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9cf7d5e..022cbe5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -988,6 +988,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
             if (atoms[ti].n_neighbors < nns){
                 return 0;
             }
+            atoms[ti].cutoff = atoms[ti].neighbordist[nns-1];
         }
 
         finished = 1;            
-- 
2.43.0


From 2a699dd569524b7e0d3cb8f0b20e04b19feac400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 17/80] fix: set_atom wrote to the wrong atom, or past the end,
 as loc was not kept by the system

---
 src/pyscal/system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 022cbe5..3eff9bb 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -127,6 +127,8 @@ void System::set_atoms( vector<Atom> atomitos){
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        //set_atom puts an atom back to this place
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
@@ -220,6 +222,10 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    for(int i=0; i<atoms.size(); i++){
+        atoms[i].loc = i;
+    }
 }
 
 
-- 
2.43.0


From 11c6a77575adc93e583cc9d54adcc096f667e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 18/80] fix: without any cluster all atoms, or those of an
 earlier run, made up the largest one

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 3eff9bb..9808d7f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1888,6 +1888,8 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        //no cluster has this id; atoms outside of all clusters belong to -1
+        maxclusterid = 0;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
@@ -1897,6 +1899,7 @@ int System::largest_cluster(){
 
         }
 
+        delete[] freq;
         get_largest_cluster_atoms();
 
         return max;
-- 
2.43.0


From e17cccc8420b1b795500fc30d95bfae8a4b1c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 19/80] fix: more than 300 neighbors overwrote other members of
 an atom

---
 src/pyscal/system.cpp | 14 ++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 9808d7f..8ad0e2a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -697,6 +697,8 @@ void System::get_all_neighbors_cells(){
                         else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                             continue;
                         }
+                        check_neighbor_space(ti);
+                        check_neighbor_space(tj);
                         //process_neighbor(ti, tj);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -761,6 +763,8 @@ void System::get_all_neighbors_normal(){
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_space(ti);
+                check_neighbor_space(tj);
                 //process_neighbor(ti, tj);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
@@ -797,6 +801,14 @@ void System::get_all_neighbors_normal(){
 
 }
 
+void System::check_neighbor_space(int ti){
+    /*
+    The lists of an atom have a fixed size
+     */
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS)
+        throw runtime_error("Too many neighbors - try reducing the cutoff");
+}
+
 bool System::is_filtered(int ti, int tj){
     /*
     Check if the type filter leaves out tj as a neighbor of ti
@@ -817,6 +829,7 @@ void System::process_neighbor(int ti, int tj){
     double d, diffx, diffy, diffz;
     double r, phi, theta;
 
+    check_neighbor_space(ti);
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
@@ -1319,6 +1332,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_space(ti);
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 3c93de2..b0e06d4 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -76,6 +76,7 @@ class System{
         cell *cells;
         double neighbordistance;
         void get_all_neighbors_normal();
+        void check_neighbor_space(int);
         bool is_filtered(int, int);
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
-- 
2.43.0


From 0a3f707e274e2c47c913ba558f64d2f2f739da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:19 +0000
Subject: [PATCH 20/80] fix: methods that modify atoms discarded neighbors and
 conditions of systems with ghost atoms

---
 src/pyscal/core.py | 51 ++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c7e914b..86e5fd5 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -267,6 +267,22 @@ class System(pc.System):
         """
         self.cset_atom(atom)
 
+    def _update_atoms(self, atoms):
+        """
+        Put atoms of the system back after modification. In contrast to assigning
+        a new list of atoms, images of atoms and neighbors are kept.
+        """
+        for atom in atoms:
+            self.cset_atom(atom)
+
+    def _update_condition(self, values):
+        """
+        Set the condition of all atoms of the system and of their images
+        """
+        for count, atom in enumerate(self.get_all_atoms()):
+            atom.condition = values[count % len(values)]
+            self.cset_atom(atom)
+
 
     def calculate_rdf(self, histobins=100, histomin=0.0, histomax=None):
         """
@@ -711,7 +727,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -804,19 +820,13 @@ class System(pc.System):
             atoms = self.atoms
 
             if isatomattr:
-                for atom in atoms:
-                    atom.condition = self.get_custom(atom, [condition])[0]
+                cvals = [self.get_custom(atom, [condition])[0] for atom in atoms]
             else:
-                for atom in atoms:
-                    cval = condition(atom)
-                    atom.condition = cval
-            self.atoms = atoms
+                cvals = [condition(atom) for atom in atoms]
+            self._update_condition(cvals)
 
         if clear_condition:
-            atoms = self.atoms
-            for atom in atoms:
-                atom.condition = 0
-            self.atoms = atoms
+            self._update_condition([0])
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1044,14 +1054,11 @@ class System(pc.System):
         atoms = self.atoms
 
         if isatomattr:
-            for atom in atoms:
-                atom.condition = self.get_custom(atom, [condition])[0]
+            cvals = [self.get_custom(atom, [condition])[0] for atom in atoms]
         else:
-            for atom in atoms:
-                cval = condition(atom)
-                atom.condition = cval
-        
-        self.atoms = atoms
+            cvals = [condition(atom) for atom in atoms]
+
+        self._update_condition(cvals)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1165,7 +1172,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1232,7 +1239,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1514,7 +1521,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1630,7 +1637,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
-- 
2.43.0


From 5809b09fba6fe82ee303bb300ffe9c929b0e60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 21/80] fix: calculate_angularcriteria failed for neighbors
 which are ghost atoms

---
 src/pyscal/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 86e5fd5..9f7e0b9 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1150,11 +1150,10 @@ class System(pc.System):
 
             neighs = atom.neighbors
 
-            for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
-                dists.append(dist)
-                distneighs.append(neigh)
-                distvectors.append(vectors)
+            #neighbors can be images of atoms, which are not part of the list
+            dists = atom.neighbor_distance
+            distneighs = neighs
+            distvectors = atom.neighbor_vector
 
             args = np.argsort(dists)
             #find top four
-- 
2.43.0


From ce497f2a1ab69e729c2b5984e34519862bc987f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 22/80] fix: voronoi cells of triclinic boxes that are small or
 not aligned with x; ghosts made for them were left in the unrepeated box

---
 src/pyscal/core.py | 58 +++++++++-------------------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9f7e0b9..d74f04d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -571,19 +571,20 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            #copy the simulation cell
-            backupbox = self._box.copy()
             if self.triclinic:
                 if not self.ghosts_created:
                     atoms  = self.get_atoms()
                     atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                     self.set_atoms(atoms)
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
+                    self.reset_allneighbors()
+            #copy the simulation cell
+            backupbox = self._box.copy()
+            if self.triclinic:
+                self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._box = backupbox
 
         self.neighbors_found = True
 
@@ -1986,51 +1987,14 @@ class System(pc.System):
         """
         #first task is to create a box representation
         
-        box = self._box
-        backupbox = box.copy()
-        
-        a = np.array(box[0])
-        b = np.array(box[1])
-        c = np.array(box[2])
-
-        cosa = np.dot(b, c)/(np.linalg.norm(b)*np.linalg.norm(c))
-        cosb = np.dot(c, a)/(np.linalg.norm(c)*np.linalg.norm(a))
-        cosc = np.dot(a, b)/(np.linalg.norm(a)*np.linalg.norm(b))
-
-        lx = np.linalg.norm(a)
-        xy = np.linalg.norm(b)*cosc
-        xz = np.linalg.norm(c)*cosb
-        ly = np.sqrt(np.linalg.norm(b)*np.linalg.norm(b) - xy*xy)
-        yz = (np.linalg.norm(b)*np.linalg.norm(c)*cosa - xy*xz)/ly
-        lz = np.sqrt(np.linalg.norm(c)*np.linalg.norm(c) - xz*xz - yz*yz)
-
-        xlo = ylo = zlo = 0
-        xhi = lx
-        yhi = ly
-        zhi = lz
-
-        xlo_bound = xlo + min(0.0,xy,xz,xy+xz)
-        xhi_bound = xhi + max(0.0,xy,xz,xy+xz)
-        ylo_bound = ylo + min(0.0,yz)
-        yhi_bound = yhi + max(0.0,yz)
-        zlo_bound = zlo
-        zhi_bound = zhi
-
-        newbox = np.array([[xhi_bound-xlo_bound, 0, 0], [0, yhi_bound-ylo_bound, 0], [0, 0, zhi_bound-zlo_bound]])
-        
-        #we also need to remap atoms
-        #atoms = self.get_all_atoms()
-        #for atom in atoms:
-        #    pos = atom.pos
-        #    pos[0] = pos[0]-xlo_bound
-        #    pos[1] = pos[1]-ylo_bound
-        #    pos[2] = pos[2]-zlo_bound
-        #    atom.pos = pos
+        box = np.array(self._box)
 
+        #lengths of the smallest box along the axes that holds the cell
+        newbox = np.diag(np.sum(np.abs(box), axis=0))
 
+        #the cell vectors of the triclinic box are still needed for distances
         self.newbox = newbox
-        self.box = newbox
-        #self.atoms = atoms
+        self._box = newbox
 
     def extract_cubic_box(self, repeat=(3,3,3)):
         """
-- 
2.43.0


From 2859660ec22a2bf3f41f69aa7369f354ef313ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 23/80] fix: a new box or new atoms were mixed up with the
 ghost atoms of earlier ones; rotated and triclinic boxes were taken for
 orthogonal

---
 src/pyscal/core.py | 49 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index d74f04d..953120d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,21 +109,29 @@ class System(pc.System):
         """
         Box setter 
         """
+        self._assign_box(userbox)
+        #a new box replaces the one kept for a system with ghost atoms
+        self.actual_box = None
+        if self.ghosts_created:
+            #images of the atoms in the old box are of no use
+            self.ghosts_created = False
+            self.atoms = self.get_atoms()
+
+    def _assign_box(self, box):
+        """
+        Assign the box used in calculations, which includes the images of atoms
+        """
         #we should automatically check for triclinic cells here
-        summ = 0
-        for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
-
-        #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        #only a box along the axes is handled as orthogonal
+        rot = np.array(box, dtype=float).T
+        if np.max(np.abs(rot - np.diag(np.diag(rot)))) > 1E-6:
             #this is a triclinic box
-            rot = np.array(userbox).T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
-        self._box = userbox
+        self._box = box
 
     @property
     def atoms(self):
@@ -137,6 +145,12 @@ class System(pc.System):
         """
         Set atoms
         """
+        #start from the actual box, without the images of earlier atoms
+        if self.actual_box is not None:
+            self._assign_box(self.actual_box)
+            self.actual_box = None
+        self.ghosts_created = False
+
         if(len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
@@ -1931,8 +1945,7 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        box = [np.array(vec) for vec in self.box]
 
         if atoms is None:
             atoms = self.atoms
@@ -1968,13 +1981,15 @@ class System(pc.System):
                             a.ghost = 1
                         newatoms.append(a)
 
-        if scale_box:
-            box[0] = xs*np.array(box[0])
-            box[1] = ys*np.array(box[1])
-            box[2] = zs*np.array(box[2])
-            self.box = box
         if ghost:
+            self.actual_box = self.box
             self.ghosts_created = True
+        if scale_box:
+            newbox = [xs*box[0], ys*box[1], zs*box[2]]
+            if ghost:
+                self._assign_box(newbox)
+            else:
+                self.box = newbox
 
         completeatoms = atoms + newatoms
         #print(len(completeatoms))
-- 
2.43.0


From a93204751e91b676f9aa38bdc6873a46ea4d2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:51 +0000
Subject: [PATCH 24/80] fix: extract_cubic_box left the system in the repeated
 box

---
 src/pyscal/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 953120d..c5c145e 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2028,9 +2028,13 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
-        ratoms = self.repeat(repeat)
+        ratoms = self.repeat(repeat, scale_box=False)
         anchor = ratoms[0]
 
+        #distances are needed in the repeated box
+        backupbox = self._box
+        self._assign_box([(2*rep+1)*np.array(vec) for rep, vec in zip(repeat, self.box)])
+
         nb = []
 
         for count, ind in enumerate([[1, 2], [0, 2], [0, 1]]): 
@@ -2045,11 +2049,14 @@ class System(pc.System):
                                 mindist = dist
                                 minatom = atom
             if minatom is None:
+                self._assign_box(backupbox)
                 raise ValueError("Cubic box cound not be found, try increasing repeat")
             lo = min(anchor.pos[count], minatom.pos[count])
             hi = max(anchor.pos[count], minatom.pos[count])
             nb.append([lo, hi])
 
+        self._assign_box(backupbox)
+
         #collect atoms
         collectedatoms = []
         for atom in ratoms:
-- 
2.43.0


From 6dd31c33278cd8ca85bb06b18781aecf97487f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 25/80] fix: atoms added to a system with ghost atoms had no
 images

---
 src/pyscal/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c5c145e..bfd3a7b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -177,7 +177,11 @@ class System(pc.System):
         -------
         None
         """
-        self.cadd_atoms(atoms)
+        if self.ghosts_created:
+            #the images of all atoms have to be created again
+            self.atoms = self.get_atoms() + list(atoms)
+        else:
+            self.cadd_atoms(atoms)
 
     def read_inputfile(self, filename, format="lammps-dump", compressed = False, customkeys=None):
         """
-- 
2.43.0


From d0c7c376ef095d3938c6c9bc7082ebc33593b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 26/80] fix: rdf of systems with ghost atoms was not normalised

---
 src/pyscal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index bfd3a7b..9ef8e2a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -335,10 +335,10 @@ class System(pc.System):
         hist = hist.astype(float)
         r = bin_edges[:-1]
 
-        #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #get box density; the pairs are those of all atoms including images
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
-- 
2.43.0


From eaddb6411e8a25dd04c513252af91f1f7b9f7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 27/80] fix: remap_atoms left systems with ghost atoms without
 images, or with images in the wrong box

---
 src/pyscal/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 9ef8e2a..e63958f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2129,7 +2129,6 @@ class System(pc.System):
         """
         box = self.box
         atoms = self.atoms
-        self.box = box
         newatoms = []
 
         for atom in atoms:
@@ -2160,23 +2159,27 @@ class System(pc.System):
         
         if remove_images:
             pairs = []
+            #images are those of the actual box
+            backupbox = self._box
+            self._assign_box(box)
             for i in range(len(atoms)):
                 for j in range(i+1, len(atoms)):
                     #we need explicit treatment of images
                     dist = self.get_distance(atoms[i], atoms[j])
                     if dist <= dtol:
                         pairs.append(i) 
+            self._assign_box(backupbox)
             for count, atom in enumerate(atoms):
                 if count not in pairs:
                     newatoms.append(atom)
             if assign:
-                self.set_atoms(newatoms)
+                self.atoms = newatoms
                 return None
             else:
                 return newatoms
 
         if assign:
-            self.set_atoms(atoms)
+            self.atoms = atoms
             return None
         else:
             return atoms
-- 
2.43.0


From 61322b43fd6723497748800d17a55660b4922e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 28/80] fix: clusters of systems with ghost atoms ended at the
 periodic boundary

---
 src/pyscal/system.cpp | 17 +++++++++++++----
 src/pyscal/system.h   |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8ad0e2a..8adf599 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1841,14 +1841,22 @@ void System::find_clusters(double clustercutoff){
         }
 }
 
+//location of the atom of which ti is an image; images follow the
+//real atoms, repeating them in the same order
+int System::real_index(int ti){
+    if (!atoms[ti].ghost) return ti;
+    if ((real_nop == 0) || (ghost_nop % real_nop != 0)) return -1;
+    return (ti - real_nop) % real_nop;
+}
+
 //we have to test with a recursive algorithm - to match the values that is presented
 //in Grisells code.
 void System::harvest_cluster(const int ti, const int clusterindex){
 
     int neigh;
     for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = atoms[ti].neighbors[i];
-        if (atoms[neigh].ghost) continue;
+        neigh = real_index(atoms[ti].neighbors[i]);
+        if (neigh < 0) continue;
         if(!atoms[neigh].condition) continue;
         if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
         if (atoms[neigh].belongsto==-1){
@@ -1931,8 +1939,9 @@ void System::get_largest_cluster_atoms(){
             if(atoms[ti].issolid == 1){
                 atoms[ti].issurface = 0;
                 for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    if (atoms[atoms[ti].neighbors[tj]].ghost) continue;
-                    if(atoms[atoms[ti].neighbors[tj]].issolid == 0){
+                    int neigh = real_index(atoms[ti].neighbors[tj]);
+                    if (neigh < 0) continue;
+                    if(atoms[neigh].issolid == 0){
                         atoms[ti].issurface = 1;
                         break;
                     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index b0e06d4..d2751f1 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -143,6 +143,7 @@ class System{
         int comparecriteria;
         void find_solid_atoms();
         void find_clusters(double);
+        int real_index(int);
         void harvest_cluster(const int, const int);
         void find_clusters_recursive(double);
         int largest_cluster();
-- 
2.43.0


From 5e50e2ba38d31059c865f91a3e4b18946bdc6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 29/80] fix: Atom.bonds gave an internal list of cna instead of
 the number of solid bonds

---
 src/pyscal/atom_binding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/atom_binding.cpp b/src/pyscal/atom_binding.cpp
index b334cab..09cf374 100644
--- a/src/pyscal/atom_binding.cpp
+++ b/src/pyscal/atom_binding.cpp
@@ -417,7 +417,7 @@ py::class_<Atom>(m,"Atom", R"mydelimiter(
     .def_readwrite("common", &Atom::common, R"mydelimiter(
     )mydelimiter")
 
-    .def_readwrite("bonds", &Atom::bonds, R"mydelimiter(
+    .def_readwrite("cna_bonds", &Atom::bonds, R"mydelimiter(
     )mydelimiter")
 
     //-------------------------------------------------------
-- 
2.43.0


From d857ea95f08ddc1f321c6bd553fe8adfeba58415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 30/80] fix: loc of atoms read from a dump was off by one

---
 src/pyscal/formats/lammps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..21f33d5 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -155,7 +155,7 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
             atom.pos = [x, y, z]
             atom.id = idd
             atom.type = typ
-            atom.loc = count-8
+            atom.loc = count-9
 
             customdict = {}
             #if customkeys need to be read, do it
-- 
2.43.0


From 8f94c38c04aa0f965d90dea79b234fa7735e41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 31/80] fix: origin of triclinic boxes in dump files, which
 also shifted scaled coordinates

---
 src/pyscal/formats/lammps.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 21f33d5..2e4b834 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -190,12 +190,14 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
 
         rot = np.array([a, b, c]).T
         rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
-
-        for atom in atoms:
-            #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+        ortho_origin = np.array([xlo, ylo, zlo])
+
+        #scaled coordinates are already relative to the origin
+        if not scaled:
+            for atom in atoms:
+                #correct zero of the atomic positions (shift box to origin)
+                dist = np.array(atom.pos) - ortho_origin
+                atom.pos = dist
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
-- 
2.43.0


From 33d3d60037117586d651c50724bd64d4d44d9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 32/80] fix: the tilt of triclinic boxes was lost in dump files

---
 src/pyscal/formats/lammps.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 2e4b834..930971c 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -256,6 +256,11 @@ def write_snap(sys, outfile, compressed = False,
     boxy = np.sqrt(np.sum(np.array(box[1])**2))
     boxz = np.sqrt(np.sum(np.array(box[2])**2))
 
+    #a triclinic box can be written if it is oriented as in lammps
+    box = np.array(box)
+    tilts = [box[1][0], box[2][0], box[2][1]]
+    triclinic = (np.max(np.abs(tilts)) > 1E-6) and (np.max(np.abs(np.triu(box, 1))) <= 1E-6)
+
     atoms = sys.atoms
 
     if len(customkeys) > 0:
@@ -286,10 +291,17 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    if triclinic:
+        xy, xz, yz = tilts
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), box[0][0] + max(0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0, yz), box[1][1] + max(0, yz), xz))
+        dump.write("%f %f %f\n" % (0, box[2][2], yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, boxx))
+        dump.write("%f %f\n" % (0, boxy))
+        dump.write("%f %f\n" % (0, boxz))
 
     #now write header
     if len(customkeys) > 0:
-- 
2.43.0


From a09301ede6c9ece17354ead0a8a0b26b7c85a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 33/80] fix: conversion to ase stored the species in the
 system, and later ones were ignored

---
 src/pyscal/formats/ase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..526ec91 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -107,9 +107,8 @@ def convert_snap(sys, species=None):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
         #now assign the species to custom
         
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+        #names are not stored in the atoms, which share their dict with those of the system
+        names = [species[int(atom.type-1)] for atom in atoms]
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
@@ -125,7 +124,8 @@ def convert_snap(sys, species=None):
                     species.append(atom.custom['species'])
                     break
         specieskey = "".join(species)
-      
+        names = [atom.custom['species'] for atom in atoms]
+
     cell = sys.box
     pbc = [1, 1, 1]
 
@@ -136,8 +136,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for atom, name in zip(atoms, names):
+        aseatom = Atom(name, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
-- 
2.43.0


From 5c4c0a81173cc61c2e2e8f64ecdc156889dd7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 34/80] fix: every format left to ase was rejected after
 reading or writing it

---
 src/pyscal/traj_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..012c796 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,7 +66,7 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
+            warnings.warn("Using ase backend to read file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
@@ -129,7 +129,7 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
+            warnings.warn("Using ase backend to write file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
-- 
2.43.0


From 864fb5f030eb0e5510a0c4805b5f242b7eaa0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 35/80] fix: adding time slices changed the first one

---
 src/pyscal/trajectory.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..32fcfaa 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,14 +90,11 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
-
+        #the operands stay as they are
+        total = Timeslice(self.trajectory, self.blocklist)
+        total.trajectories = self.trajectories + ntraj.trajectories
+        total.blocklists = self.blocklists + ntraj.blocklists
+        return total
 
     def __radd__(self, ntraj):
         """
-- 
2.43.0


From bf68c378f084c47541bfd187cbeb47671d9193ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 36/80] fix: iteration over slices that do not exist

---
 src/pyscal/trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 32fcfaa..21634f9 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -370,13 +370,14 @@ class Trajectory:
         """
         if n_slices is None:
             n_slices = self.nblocks
+        n_slices = min(n_slices, self.nblocks)
 
         if method == "ascending":
             for i in range(n_slices):
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
-- 
2.43.0


From b1ec004340523186bb72e67cc8e95375159e9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 37/80] fix: blocks out of range gave lines that are not a
 block

---
 src/pyscal/trajectory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 21634f9..3496c5f 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -276,6 +276,10 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
+            if not -self.nblocks <= blockno < self.nblocks:
+                raise IndexError("block %d is not in a trajectory of %d slices"%(blockno, self.nblocks))
+            if blockno < 0:
+                blockno += self.nblocks
             blocklist = [blockno]
             timeslice = Timeslice(self, blocklist)
             return timeslice
@@ -401,6 +405,10 @@ class Trajectory:
         data : list
             list of strings containing data
         """
+        if not -self.nblocks <= blockno < self.nblocks:
+            raise IndexError("block %d is not in a trajectory of %d slices"%(blockno, self.nblocks))
+        if blockno < 0:
+            blockno += self.nblocks
         start = blockno*self.blocksize
         stop = (blockno+1)*self.blocksize
 
-- 
2.43.0


From 30ac096b8a66c18d3be0c754969794bbb11b803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 38/80] fix: loading blocks with a single atom

---
 src/pyscal/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 3496c5f..d87e82e 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -447,7 +447,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
-- 
2.43.0


From 98ab8cdd4d9823b8060cc0fb93284a5ae06533cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 39/80] fix: to_dict discarded data that had been loaded and
 modified

---
 src/pyscal/trajectory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index d87e82e..0a5bf23 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -154,9 +154,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
-                data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                #data that is already loaded stays until it is unloaded
+                loaded = traj.loadlist[x]
+                if not loaded:
+                    traj.load(x)
+                data.append(traj.data[x])
+                if not loaded:
+                    traj.unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
-- 
2.43.0


From bfcbc6af29b045011168e0c3774cd7d790358211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 40/80] fix: loaded blocks were written with timestep 0 and the
 header of an orthogonal box

---
 src/pyscal/trajectory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 0a5bf23..d25b48c 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -494,13 +494,15 @@ class Trajectory:
             list of lines
         """
         dd = self.data[blockno]
+        #timestep and box header are not part of the data
+        raw = self.get_block(blockno)
 
         data = []
         data.append("ITEM: TIMESTEP\n")
-        data.append("".join([str(0), os.linesep]))
+        data.append(raw[1])
         data.append("ITEM: NUMBER OF ATOMS\n")
         data.append("".join([str(self.natoms), os.linesep]))
-        data.append("ITEM: BOX BOUNDS pp pp pp\n")
+        data.append(raw[4])
         for b in dd["box"]:
             dstr = " ".join(b.astype(str))
             data.append("".join([dstr, os.linesep]))
-- 
2.43.0


From acadf4f84b550a4e6127c249280962a0d035ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 41/80] fix: short range order of a single shell was returned
 as two values

---
 src/pyscal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index e63958f..2c30b99 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1542,7 +1542,7 @@ class System(pc.System):
         self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
@@ -1658,7 +1658,7 @@ class System(pc.System):
         self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
-            vec = np.zeros(2)
+            vec = np.zeros(shells)
             count = 0
             for atom in atoms:
                 if atom.type == reference_type:
-- 
2.43.0


From 22a031f40c735c80fdde1068f8596e820504a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 42/80] fix: pairwise short range order used the concentration
 of another type

---
 src/pyscal/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 2c30b99..7126ce9 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1616,8 +1616,9 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        #types need not be numbered without gaps
+        mref  = types[1][list(types[0]).index(reference_type)]/float(np.sum(types[1]))
+        mcomp = types[1][list(types[0]).index(compare_type)]/float(np.sum(types[1]))
 
         for atom in atoms:
             if atom.type == reference_type:
-- 
2.43.0


From ba2896a14c3311fee3acf0e7c2f8a6e5e984843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 43/80] fix: volume of cells with left handed vectors was
 negative

---
 src/pyscal/core.py    | 2 +-
 src/pyscal/system.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7126ce9..ee0c4bc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1779,7 +1779,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8adf599..d7513c5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -975,7 +975,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1181,7 +1181,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
@@ -1285,7 +1285,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
     }
 
     //now find the volume per particle
-    double guessvol = boxvol/float(nop);
+    double guessvol = fabs(boxvol)/float(nop);
 
     //guess the side of a cube that is occupied by an atom - this is a guess distance
     double guessdist = cbrt(guessvol);
-- 
2.43.0


From eb3948b2bac0e09efc3e75dadfa2bc8ec3423dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 44/80] fix: adaptive cutoff beyond the search radius gave an
 incomplete list of neighbors

---
 src/pyscal/system.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d7513c5..837c63f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1321,6 +1321,11 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         }
         dcut = padding*(1.0/float(nlimit))*summ;
 
+        //candidates are only known up to the guessed distance
+        if (dcut > neighbordistance){
+            return 0;
+        }
+
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
             int tj = atoms[ti].temp_neighbors[j].index;
-- 
2.43.0


From c8a606a9ff67dedc9319930b626e12317be20e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 45/80] fix: sann left the cutoff of an earlier search on atoms
 with three neighbors

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 837c63f..06bdfa4 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1215,6 +1215,7 @@ int System::get_all_neighbors_sann(double prefactor){
 
         //find cutoff
         dcut = summ/float(m-2);
+        atoms[ti].cutoff = dcut;
         maxneighs = atoms[ti].temp_neighbors.size();
 
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
-- 
2.43.0


From 57541a4e74bbd6bad135feb248598d1a85a2eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 46/80] fix: distances in small systems ignored the periodic
 boundaries of the box

---
 src/pyscal/core.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ee0c4bc..f22eddc 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -416,11 +416,22 @@ class System(pc.System):
         -----
         Periodic boundary conditions are assumed by default.
         """
+        #with images of atoms, the box used in calculations is larger than the actual one
+        innerbox = None
+        if self.actual_box is not None:
+            innerbox = self._box
+            self._assign_box(self.actual_box)
+
+        distance = self.get_absdistance(atom1, atom2)
+        displacement_vector = self.get_absdistance_vector(atom1, atom2)
+
+        if innerbox is not None:
+            self._assign_box(innerbox)
+
         if vector:
-            displacement_vector = self.get_absdistance_vector(atom1, atom2)
-            return self.get_absdistance(atom1, atom2), displacement_vector
+            return distance, displacement_vector
         else:
-            return self.get_absdistance(atom1, atom2)
+            return distance
 
 
     def find_neighbors(self, method='cutoff', cutoff=None, threshold=2, filter=None,
@@ -1516,7 +1527,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -1624,7 +1635,7 @@ class System(pc.System):
             if atom.type == reference_type:
                 neighs = atom.neighbors
                 #get all neighbor distances
-                distances = [self.get_distance(atom, atoms[n]) for n in neighs]
+                distances = atom.neighbor_distance
                 avgdistance = np.mean(distances)
                 distsplit = avgdistance/2.00
                 #find two shells of atoms
@@ -2049,7 +2060,7 @@ class System(pc.System):
                 if np.abs(atom.pos[ind[0]]-anchor.pos[ind[0]])< 1E-5:
                     if np.abs(atom.pos[ind[1]]-anchor.pos[ind[1]])< 1E-5:
                         if atom.type == anchor.type:
-                            dist = self.get_distance(anchor, atom)
+                            dist = self.get_absdistance(anchor, atom)
                             if dist < mindist:
                                 mindist = dist
                                 minatom = atom
@@ -2160,16 +2171,12 @@ class System(pc.System):
         
         if remove_images:
             pairs = []
-            #images are those of the actual box
-            backupbox = self._box
-            self._assign_box(box)
             for i in range(len(atoms)):
                 for j in range(i+1, len(atoms)):
                     #we need explicit treatment of images
                     dist = self.get_distance(atoms[i], atoms[j])
                     if dist <= dtol:
                         pairs.append(i) 
-            self._assign_box(backupbox)
             for count, atom in enumerate(atoms):
                 if count not in pairs:
                     newatoms.append(atom)
-- 
2.43.0


From 9729701f409ee9ded7f4946fc7be2c831534e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 47/80] fix: atoms without neighbors kept the cutoff of an
 earlier search

---
 src/pyscal/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 06bdfa4..33595dc 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -669,6 +669,11 @@ void System::get_all_neighbors_cells(){
         return;
     }
 
+    //atoms without any neighbor have a cutoff too
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
+    }
+
     //first create cells
     set_up_cells();
     int maincell, subcell;
@@ -751,6 +756,10 @@ void System::get_all_neighbors_normal(){
     double diffx,diffy,diffz;
     double r,theta,phi;
 
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
+    }
+
     for (int ti=0; ti<nop; ti++){
         for (int tj=ti; tj<nop; tj++){
             if(ti==tj) { continue; }
@@ -1327,6 +1336,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
             return 0;
         }
 
+        atoms[ti].cutoff = dcut;
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
             int tj = atoms[ti].temp_neighbors[j].index;
-- 
2.43.0


From 394cec6c4dda035ee7a34c190a665a69d7794e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 48/80] fix: the condition of a clustering filtered neighbors
 in later calculations of q and solids

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index f22eddc..f53e851 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1088,11 +1088,14 @@ class System(pc.System):
         else:
             cvals = [condition(atom) for atom in atoms]
 
+        #the condition of clustering is not to filter neighbors in a later calculation of q
+        oldvals = [atom.condition for atom in atoms]
         self._update_condition(cvals)
         self.cfind_clusters_recursive(cutoff)
 
         #done!
         lc = self.find_largest_cluster()
+        self._update_condition(oldvals)
         #pcs.System.get_largest_cluster_atoms(self)
 
         if largest:
-- 
2.43.0


From 90d4a570267f46aae83d71e8ab34b1d55863b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 49/80] fix: a cutoff given for one clustering replaced that of
 the atoms for later ones

---
 src/pyscal/system.cpp | 16 ++++++----------
 src/pyscal/system.h   |  2 +-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 33595dc..94a058f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1867,29 +1867,25 @@ int System::real_index(int ti){
 
 //we have to test with a recursive algorithm - to match the values that is presented
 //in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex){
+void System::harvest_cluster(const int ti, const int clusterindex, const double clustercutoff){
 
     int neigh;
+    //a cutoff given for clustering leaves that of the atom as it is
+    double limit = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
     for(int i=0; i<atoms[ti].n_neighbors; i++){
         neigh = real_index(atoms[ti].neighbors[i]);
         if (neigh < 0) continue;
         if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= atoms[ti].cutoff)) continue;
+        if(!(atoms[ti].neighbordist[i] <= limit)) continue;
         if (atoms[neigh].belongsto==-1){
             atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex);
+            harvest_cluster(neigh, clusterindex, clustercutoff);
         }
     }
 }
 
 void System::find_clusters_recursive(double clustercutoff){
 
-  if (clustercutoff != 0){
-    for(int ti=0; ti<nop;ti++){
-        atoms[ti].cutoff = clustercutoff;
-    }
-  }
-
     int clusterindex;
     clusterindex = 0;
 
@@ -1904,7 +1900,7 @@ void System::find_clusters_recursive(double clustercutoff){
         if (atoms[ti].belongsto==-1){
             clusterindex += 1;
             atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex);
+            harvest_cluster(ti, clusterindex, clustercutoff);
         }
 
     }
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index d2751f1..72d5bf2 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -144,7 +144,7 @@ class System{
         void find_solid_atoms();
         void find_clusters(double);
         int real_index(int);
-        void harvest_cluster(const int, const int);
+        void harvest_cluster(const int, const int, const double);
         void find_clusters_recursive(double);
         int largest_cluster();
         void set_nucsize_parameters(double,double,double);
-- 
2.43.0


From 79816bca533198ac8f86442b7c28908e10cdaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 50/80] fix: components of q_l with negative m had the wrong
 sign of the imaginary part

---
 src/pyscal/system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 94a058f..ce5bd53 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1475,7 +1475,8 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        //complex conjugate of the one with positive m
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From 71b113e76486f4d38d8c704b23f09c4df051ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 51/80] fix: cna in narrow boxes took neighbors on opposite
 sides of an atom for bonded

---
 src/pyscal/system.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ce5bd53..dfa5320 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2260,7 +2260,12 @@ void System::get_common_neighbors(int ti){
         m = atoms[ti].neighbors[i];
         for(int j=i+1; j<atoms[ti].n_neighbors; j++){
             n = atoms[ti].neighbors[j];
-            d = get_abs_distance(m, n, dx, dy, dz);
+            //bonds are those between the neighbors as seen from the atom. In a narrow
+            //box other images of the two neighbors could be closer
+            dx = atoms[ti].n_diffx[i] - atoms[ti].n_diffx[j];
+            dy = atoms[ti].n_diffy[i] - atoms[ti].n_diffy[j];
+            dz = atoms[ti].n_diffz[i] - atoms[ti].n_diffz[j];
+            d = sqrt(dx*dx + dy*dy + dz*dz);
             if (d <= atoms[ti].cutoff){
                 atoms[ti].cna[i][0]++;
                 atoms[ti].common[i].emplace_back(n);
@@ -2294,7 +2299,14 @@ void System::get_common_bonds(int ti){
             for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
                 c1 = atoms[ti].common[k][l];
                 c2 = atoms[ti].common[k][m];
-                d = get_abs_distance(c1, c2, dx, dy, dz);
+                int n1 = 0, n2 = 0;
+                //positions of the two in the list of neighbors
+                while(atoms[ti].neighbors[n1] != c1) n1++;
+                while(atoms[ti].neighbors[n2] != c2) n2++;
+                dx = atoms[ti].n_diffx[n1] - atoms[ti].n_diffx[n2];
+                dy = atoms[ti].n_diffy[n1] - atoms[ti].n_diffy[n2];
+                dz = atoms[ti].n_diffz[n1] - atoms[ti].n_diffz[n2];
+                d = sqrt(dx*dx + dy*dy + dz*dz);
                 if(d <= atoms[ti].cutoff){
                     atoms[ti].cna[k][1]++;
                     atoms[ti].bonds[k][l]++;
-- 
2.43.0


From 352fb8fd7247f436cedd8212a5e1bdbd44df8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 52/80] fix: the area cutoff of calculate_vorovector was
 applied to neighbor weights, and with a filter to those of other faces

---
 src/pyscal/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index f53e851..e6758ac 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -712,8 +712,13 @@ class System(pc.System):
             refined_edges = []
             edge_lengths = []
 
-            for vno in atom.face_vertices:
+            face_areas = []
+            vertices = np.array(atom.vertex_vectors).reshape(-1, 3)
 
+            #all faces of the polyhedron, also those left out of neighbors by a filter
+            while st < len(atom.vertex_numbers):
+
+                vno = atom.vertex_numbers[st-1]
                 vphase = atom.vertex_numbers[st:st+vno]
                 edgecount = 0
                 dummy_edge_lengths = []
@@ -730,6 +735,8 @@ class System(pc.System):
                     dummy_edge_lengths.append(edgeln)
 
                 edge_lengths.append(dummy_edge_lengths)
+                corners = vertices[vphase]
+                face_areas.append(0.5*np.linalg.norm(np.sum(np.cross(corners, np.roll(corners, -1, axis=0)), axis=0)))
                 st += (vno+1)
 
             #now all the edge lengths are saved
@@ -737,7 +744,7 @@ class System(pc.System):
                 #normalise the edge lengths
                 norm = (ed/np.sum(ed))
                 #apply face area cutoff
-                if (atom.neighbor_weights[c] > area_cutoff):
+                if (face_areas[c]/np.sum(face_areas) > area_cutoff):
                     #check for edge length cutoff
                     edgecount = len([cc for cc,x in enumerate(norm) if x > edge_cutoff])
                     refined_edges.append(edgecount)
-- 
2.43.0


From c5ac6fc7feef12228b50561122e3e8da8a0df5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 53/80] fix: getting or setting an atom out of range read or
 wrote past the end of the list

---
 src/pyscal/system.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index dfa5320..ad70579 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -239,9 +239,15 @@ vector<Atom> System::get_all_atoms( ){
 
 }
 
-Atom System::gatom(int i) { return atoms[i]; }
+Atom System::gatom(int i) {
+    if ((i < 0) || (i >= nop))
+        throw out_of_range("there is no atom at this index");
+    return atoms[i];
+}
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if ((idd < 0) || (idd >= nop))
+        throw out_of_range("there is no atom at this index");
     atoms[idd] = atom1;
 }
 
-- 
2.43.0


From 6d2e66b25f063d4461eebd0bf2cd4034ad79d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 54/80] fix: images of an atom stayed behind when it was set in
 a system with ghost atoms

---
 src/pyscal/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index e6758ac..c885f3d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -283,6 +283,15 @@ class System(pc.System):
         lead to loss of information.
 
         """
+        if self.ghosts_created and atom.loc < self.natoms:
+            #images of the atom follow it
+            shift = np.array(atom.pos) - np.array(self.cget_atom(atom.loc).pos)
+            for loc in range(atom.loc + self.natoms, self.ntotal, self.natoms):
+                image = self.cget_atom(loc)
+                image.pos = np.array(image.pos) + shift
+                image.type = atom.type
+                image.condition = atom.condition
+                self.cset_atom(image)
         self.cset_atom(atom)
 
     def _update_atoms(self, atoms):
-- 
2.43.0


From e25bd980f883f10271adfcaa895b60b251bf4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 55/80] fix: unknown methods and filters of a neighbor search
 were ignored, and a search refused or failed lost or kept the neighbors of an
 earlier one

---
 src/pyscal/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c885f3d..5673b33 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -544,8 +544,19 @@ class System(pc.System):
         .. [3] Haeberle, J, Sperl, M, Born, P, arxiv 2019
 
         """
+        #a request that makes no sense is refused before anything is changed
+        if not method in ['cutoff', 'number', 'voronoi']:
+            raise ValueError("unknown method %s for finding neighbors"%str(method))
+        if filter and not filter in ['None', 'type', 'type_r']:
+            raise ValueError("unknown filter %s for finding neighbors"%str(filter))
+        if method == 'cutoff' and not cutoff in ['sann', 'adaptive']:
+            cutoff = float(cutoff)
+        if method == 'number' or cutoff in ['sann', 'adaptive', 0]:
+            if method != 'voronoi' and threshold < 1:
+                raise ValueError("value of threshold should be at least 1.00")
+
         #first reset all neighbors
-        self.reset_allneighbors()
+        self.reset_neighbors()
         self.filter = 0
 
         if filter == 'type':
@@ -557,8 +568,6 @@ class System(pc.System):
 
         if method == 'cutoff':
             if cutoff=='sann':
-                if threshold < 1:
-                    raise ValueError("value of threshold should be at least 1.00")
                 self.usecells = (len(self.atoms) > 4000)
                 finished = self.get_all_neighbors_sann(threshold)
                 #if it finished without finding neighbors
@@ -579,9 +588,6 @@ class System(pc.System):
                         raise RuntimeError("sann cutoff could not be converged. This is most likely, \
                         due to a low threshold value. Try increasing it.")
             elif cutoff=='adaptive' or cutoff==0:
-                if threshold < 1:
-                    raise ValueError("value of threshold should be at least 1.00")
-
                 #self.usecells =  (len(self.atoms) > 4000)
                 self.usecells = (self.ntotal > 4000)
                 finished = self.get_all_neighbors_adaptive(threshold, nlimit, padding)
-- 
2.43.0


From a049e0dbecf4710f2faadf5c48d1c132d4790c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 56/80] fix: a neighbor search that failed left incomplete
 lists of neighbors

---
 src/pyscal/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5673b33..3efd032 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -585,6 +585,7 @@ class System(pc.System):
                             break
 
                     if not finallydone:
+                        self.reset_neighbors()
                         raise RuntimeError("sann cutoff could not be converged. This is most likely, \
                         due to a low threshold value. Try increasing it.")
             elif cutoff=='adaptive' or cutoff==0:
@@ -592,6 +593,7 @@ class System(pc.System):
                 self.usecells = (self.ntotal > 4000)
                 finished = self.get_all_neighbors_adaptive(threshold, nlimit, padding)
                 if not finished:
+                    self.reset_neighbors()
                     raise RuntimeError("Could not find adaptive cutoff")
             else:
                 #warnings.warn("THIS RAN")
@@ -609,6 +611,7 @@ class System(pc.System):
             self.usecells =  (len(self.atoms) > 4000)
             finished = self.get_all_neighbors_bynumber(threshold, nmax, assign_neighbor)
             if not finished:
+                self.reset_neighbors()
                 raise RuntimeError("Could not find enough neighbors - try increasing threshold")
 
         elif method == 'voronoi':
-- 
2.43.0


From 9613bc8362c11fb624ec86500c0c5d63578ae17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:07 +0000
Subject: [PATCH 57/80] fix: assigning an empty list or a list of other objects
 as atoms failed half way

---
 src/pyscal/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 3efd032..90c4615 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -145,6 +145,12 @@ class System(pc.System):
         """
         Set atoms
         """
+        if len(atoms) == 0:
+            raise ValueError("there are no atoms")
+        for atom in atoms:
+            if not isinstance(atom, Atom):
+                raise TypeError("atoms should be a list of Atom objects")
+
         #start from the actual box, without the images of earlier atoms
         if self.actual_box is not None:
             self._assign_box(self.actual_box)
-- 
2.43.0


From c186722391d1f0e6b46a3a6711456aa308afa235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 58/80] fix: changing the box returned for a system with ghost
 atoms changed the system

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 90c4615..86d0205 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -100,7 +100,7 @@ class System(pc.System):
         Wrap for inbuilt box
         """
         if self.actual_box is not None:
-            return self.actual_box
+            return [list(vec) for vec in self.actual_box]
         else:
             return self._box
 
-- 
2.43.0


From dd5c5dd91eae1e7769c23036635a690dd242e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 59/80] Restore the CRLF line endings of atom.cpp, system.cpp
 and system.h that earlier commits changed

---
 src/pyscal/atom.cpp   |  910 +++----
 src/pyscal/system.cpp | 5442 ++++++++++++++++++++---------------------
 src/pyscal/system.h   |  376 +--
 3 files changed, 3364 insertions(+), 3364 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 095d511..386f066 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -1,455 +1,455 @@
-#include "atom.h"
-#include <iostream>
-#include <iomanip>
-#include <algorithm>
-#include <stdio.h>
-#include "string.h"
-#include <chrono>
-#include <pybind11/stl.h>
-#include <complex>
-
-//-------------------------------------------------------
-// Constructor, Destructor
-//-------------------------------------------------------
-Atom::Atom( vector<double> pos, int idd, int typ){
-
-    posx = pos[0];
-    posy = pos[1];
-    posz = pos[2];
-    id = idd;
-    type = typ;
-    ghost = 0;
-
-    //assign other values - the default ones
-    belongsto = -1;
-    issolid = 0;
-    issurface = 0;
-    loc = 0;
-    isneighborset = 0;
-    n_neighbors = 0;
-    lcluster = 0;
-    head = -1;
-    entropy = 0;
-    avg_entropy = 0;
-    energy = 0;
-    avg_energy = 0;
-
-
-    for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
-        neighbors[tn] = -1;
-        neighbordist[tn] = -1.0;
-        neighborweight[tn] = -1.0;
-        facevertices[tn] = -1;
-        faceverticenumbers[tn] = -1;
-        faceperimeters[tn] = -1.0;
-        sij[tn] = -1.0;
-        masks[tn] = -1;
-        //edgelengths[tn] = -1.0;
-
-    }
-
-    for (int tn = 0; tn<11; tn++){
-        q[tn] = -1;
-        aq[tn] = -1;
-
-        for (int tnn =0; tnn<25; tnn++){
-            realq[tn][tnn] = -1;
-            imgq[tn][tnn] = -1;
-            arealq[tn][tnn] = -1;
-            aimgq[tn][tnn] = -1;
-        }
-    }
-
-}
-
-Atom::~Atom(){ }
-
-//-------------------------------------------------------
-// Basic Atom properties
-//-------------------------------------------------------
-
-
-//aceesss funcs
-vector<double> Atom::gx(){
-    vector<double> pos;
-    pos.emplace_back(posx);
-    pos.emplace_back(posy);
-    pos.emplace_back(posz);
-    return pos;
-}
-
-void Atom::sx(vector<double> rls){
-    posx = rls[0];
-    posy = rls[1];
-    posz = rls[2];
-}
-
-
-
-//-------------------------------------------------------
-// Neighbor related properties
-//-------------------------------------------------------
-vector<int> Atom::gneighbors(){
-    vector<int> nn;
-    nn.reserve(n_neighbors);
-    for(int i=0;i<n_neighbors;i++){
-        nn.emplace_back(neighbors[i]);
-    }
-    return nn;
-}
-
-void Atom::sneighdist(vector<double> dd){
-}
-
-vector<double> Atom::gneighdist(){
-  vector<double> neighdist;
-  for(int i=0; i<n_neighbors; i++){
-    neighdist.emplace_back(neighbordist[i]);
-  }
-  return neighdist;
-}
-
-void Atom::sneighbors(vector<int> nns){
-
-    //first reset all neighbors
-    for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
-        neighbors[i] = NILVALUE;
-        neighbordist[i] = -1.0;
-    }
-
-    //now assign the neighbors
-    for(int i=0; i<nns.size(); i++){
-        neighbors[i] = nns[i];
-        //auto assign weight to 1
-        neighborweight[i] = 1.00;
-    }
-
-    n_neighbors = nns.size();
-    isneighborset = 1;
-
-}
-
-void Atom::sneighborweights(vector<double> nss){
-    for(int i=0; i<nss.size(); i++){
-        neighborweight[i] = nss[i];
-    }
-}
-
-vector<double> Atom::gneighborweights(){
-    vector <double> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(neighborweight[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sdistvecs(vector<vector<double>> nss){
-
-}
-
-vector<vector<double>> Atom::gdistvecs(){
-    vector<vector<double>> m1;
-    vector <double> m2;
-
-    for(int i=0; i<n_neighbors; i++){
-        m2.clear();
-        m2.emplace_back(n_diffx[i]);
-        m2.emplace_back(n_diffy[i]);
-        m2.emplace_back(n_diffz[i]);
-
-        m1.emplace_back(m2);
-    }
-    return m1;
-}
-
-void Atom::slocalangles(vector<vector<double>> nss){
-
-}
-
-vector<vector<double>> Atom::glocalangles(){
-    vector<vector<double>> m1;
-    vector <double> m2;
-
-    for(int i=0; i<n_neighbors; i++){
-        m2.clear();
-        m2.emplace_back(n_phi[i]);
-        m2.emplace_back(n_theta[i]);
-
-        m1.emplace_back(m2);
-    }
-    return m1;
-}
-
-//-------------------------------------------------------
-// Q parameter properties
-//-------------------------------------------------------
-void Atom::ssij(vector<double> dd){
-}
-
-vector<double> Atom::gsij(){
-  vector<double> ss;
-  for(int i=0; i<n_neighbors; i++){
-    ss.emplace_back(sij[i]);
-  }
-  return ss;
-}
-
-vector<double> Atom::gallq(){
-    vector<double> allq;
-    for(int i=0; i<11; i++){
-        allq.emplace_back(q[i]);
-    }
-    return allq;
-}
-
-vector<double> Atom::gallaq(){
-    vector<double> allq;
-    for(int i=0; i<11; i++){
-        allq.emplace_back(aq[i]);
-    }
-    return allq;
-}
-
-void Atom::sallq(vector<double> allq){
-    for(int i=0; i<11; i++){
-        q[i] = allq[i];
-    }
-}
-
-void Atom::sallaq(vector<double> allaq){
-    for(int i=0; i<11; i++){
-        aq[i] = allaq[i];
-    }
-}
-double Atom::gq(int qq){ return q[qq-2]; }
-void Atom::sq(int qq, double qval){ q[qq-2] = qval; }
-
-double Atom::gaq(int qq){ return aq[qq-2]; }
-void Atom::saq(int qq, double qval){ aq[qq-2] = qval; }
-
-double Atom::gq_big(int qval, bool averaged){
-
-    if ((qval < 2) || (qval > 12)){
-        throw invalid_argument("q value should be between 2-12");
-    }
-    if(averaged == true) { return gaq(qval);}
-    else {return gq(qval);}
-}
-
-void Atom::sq_big(int qval, double val,  bool averaged){
-
-    if ((qval < 2) || (qval > 12)){
-        throw invalid_argument("q value should be between 2-12");
-    }
-    if(averaged == true) { saq(qval, val);}
-    else { sq(qval, val);}
-}
-
-//overloaded version which takes a vector
-vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
-    int d;
-    if(averaged == true) {
-        vector<double> retvals;
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            retvals.push_back(gaq(qval[i]));
-        }
-        return retvals;
-    }
-    else {
-        vector<double> retvals;
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            retvals.push_back(gq(qval[i]));
-        }
-        return retvals;
-    }
-}
-
-//overloaded version which takes a vector
-void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
-
-    if(averaged == true) {
-
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-
-            saq(qval[i], setvals[i]);
-        }
-    }
-    else {
-
-        for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-            sq(qval[i], setvals[i]);
-        }
-    }
-}
-
-
-vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
-
-  vector<complex<double>> qlms;
-  qlms.reserve(2*qq+1);
-  if (!averaged){
-    for(int i=0;i<(2*qq+1);i++){
-        complex<double> lmval(realq[qq-2][i], imgq[qq-2][i]);
-        qlms.emplace_back(lmval);
-    }
-  }
-  else{
-    for(int i=0;i<(2*qq+1);i++){
-        complex<double> lmval(arealq[qq-2][i], aimgq[qq-2][i]);
-        qlms.emplace_back(lmval);
-    }
-  }
-  return qlms;
-}
-
-
-//-------------------------------------------------------
-// Solid related properties
-//-------------------------------------------------------
-
-
-
-
-//-------------------------------------------------------
-// Voronoi related properties
-//-------------------------------------------------------
-void Atom::sfacevertices(vector<int> nss){
-    for(int i=0; i<nss.size(); i++){
-        facevertices[i] = nss[i];
-    }
-}
-
-vector<int> Atom::gfacevertices(){
-    vector <int> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(facevertices[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sfaceperimeters(vector<double> nss){
-    for(int i=0; i<nss.size(); i++){
-        faceperimeters[i] = nss[i];
-    }
-}
-
-vector<double> Atom::gfaceperimeters(){
-    vector <double> rqlms;
-    for(int i=0; i<n_neighbors; i++){
-        rqlms.emplace_back(faceperimeters[i]);
-    }
-    return rqlms;
-}
-
-void Atom::sedgelengths(vector<vector<double>> nss){
-    edgelengths.clear();
-    edgelengths = nss;
-}
-
-vector<vector<double>> Atom::gedgelengths(){
-    return edgelengths;
-}
-
-void Atom::svertexpositions(vector<vector<double>> nss){
-    vertex_positions.clear();
-    vertex_positions = nss;
-}
-
-vector<vector<double>> Atom::gvertexpositions(){
-    return vertex_positions;
-}
-
-vector<int> Atom::gvorovector(){
-    vector<int> voro;
-    voro.emplace_back(n3);
-    voro.emplace_back(n4);
-    voro.emplace_back(n5);
-    voro.emplace_back(n6);
-    return voro;
-}
-
-void Atom::svorovector(vector<int> voro){
-
-    n3 = voro[0];
-    n4 = voro[1];
-    n5 = voro[2];
-    n6 = voro[3];
-}
-
-//-------------------------------------------------------
-// Angle related properties
-//-------------------------------------------------------
-
-
-//-------------------------------------------------------
-// Other order parameters
-//-------------------------------------------------------
-
-double Atom::gmr(double r)
-{
-        double g = 0.00;
-        double rij,r2;
-        double sigma2 = sigma*sigma;
-        double frho = 4.00*PI*rho*r*r;
-        double fsigma = sqrt(2.00*PI*sigma2);
-        double factor = (1.00/frho)*(1.00/fsigma);
-
-        for(int i=0; i<n_neighbors; i++)
-        {
-                rij = neighbordist[i];
-                r2 = (r-rij)*(r-rij);
-                g+=exp((-1.00*r2)/(2.00*sigma2));
-        }
-
-        return factor*g;
-}
-
-//function which is to be integrated
-double Atom::entropy_integrand(double r)
-{
-        double g = gmr(r);
-        //g*log(g) goes to zero with g
-        if (g <= 0) return r*r;
-        return ((g*log(g)-g +1.00)*r*r);
-}
-
-
-void Atom::trapezoid_integration()
-{
-
-        int nsteps = (rstop - rstart)/h;
-        double summ;
-        double xstart, xend;
-        summ=0.00;
-        double rloop;
-        double integral;
-
-        xstart = entropy_integrand(rstart);
-
-        for(int j=1; j<nsteps-1; j++)
-        {
-
-                rloop = rstart + j*h;
-                summ += entropy_integrand(rloop);
-
-        }
-
-        xend = entropy_integrand(rstart + nsteps*h);
-        integral = (h/2.00)*(xstart + 2.00*summ + xend);
-        //cout<<xstart<<endl;
-        integral = -1.*rho*kb*integral;
-        entropy = integral;
-}
-
+#include "atom.h"
+#include <iostream>
+#include <iomanip>
+#include <algorithm>
+#include <stdio.h>
+#include "string.h"
+#include <chrono>
+#include <pybind11/stl.h>
+#include <complex>
+
+//-------------------------------------------------------
+// Constructor, Destructor
+//-------------------------------------------------------
+Atom::Atom( vector<double> pos, int idd, int typ){
+
+    posx = pos[0];
+    posy = pos[1];
+    posz = pos[2];
+    id = idd;
+    type = typ;
+    ghost = 0;
+
+    //assign other values - the default ones
+    belongsto = -1;
+    issolid = 0;
+    issurface = 0;
+    loc = 0;
+    isneighborset = 0;
+    n_neighbors = 0;
+    lcluster = 0;
+    head = -1;
+    entropy = 0;
+    avg_entropy = 0;
+    energy = 0;
+    avg_energy = 0;
+
+
+    for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
+        neighbors[tn] = -1;
+        neighbordist[tn] = -1.0;
+        neighborweight[tn] = -1.0;
+        facevertices[tn] = -1;
+        faceverticenumbers[tn] = -1;
+        faceperimeters[tn] = -1.0;
+        sij[tn] = -1.0;
+        masks[tn] = -1;
+        //edgelengths[tn] = -1.0;
+
+    }
+
+    for (int tn = 0; tn<11; tn++){
+        q[tn] = -1;
+        aq[tn] = -1;
+
+        for (int tnn =0; tnn<25; tnn++){
+            realq[tn][tnn] = -1;
+            imgq[tn][tnn] = -1;
+            arealq[tn][tnn] = -1;
+            aimgq[tn][tnn] = -1;
+        }
+    }
+
+}
+
+Atom::~Atom(){ }
+
+//-------------------------------------------------------
+// Basic Atom properties
+//-------------------------------------------------------
+
+
+//aceesss funcs
+vector<double> Atom::gx(){
+    vector<double> pos;
+    pos.emplace_back(posx);
+    pos.emplace_back(posy);
+    pos.emplace_back(posz);
+    return pos;
+}
+
+void Atom::sx(vector<double> rls){
+    posx = rls[0];
+    posy = rls[1];
+    posz = rls[2];
+}
+
+
+
+//-------------------------------------------------------
+// Neighbor related properties
+//-------------------------------------------------------
+vector<int> Atom::gneighbors(){
+    vector<int> nn;
+    nn.reserve(n_neighbors);
+    for(int i=0;i<n_neighbors;i++){
+        nn.emplace_back(neighbors[i]);
+    }
+    return nn;
+}
+
+void Atom::sneighdist(vector<double> dd){
+}
+
+vector<double> Atom::gneighdist(){
+  vector<double> neighdist;
+  for(int i=0; i<n_neighbors; i++){
+    neighdist.emplace_back(neighbordist[i]);
+  }
+  return neighdist;
+}
+
+void Atom::sneighbors(vector<int> nns){
+
+    //first reset all neighbors
+    for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
+        neighbors[i] = NILVALUE;
+        neighbordist[i] = -1.0;
+    }
+
+    //now assign the neighbors
+    for(int i=0; i<nns.size(); i++){
+        neighbors[i] = nns[i];
+        //auto assign weight to 1
+        neighborweight[i] = 1.00;
+    }
+
+    n_neighbors = nns.size();
+    isneighborset = 1;
+
+}
+
+void Atom::sneighborweights(vector<double> nss){
+    for(int i=0; i<nss.size(); i++){
+        neighborweight[i] = nss[i];
+    }
+}
+
+vector<double> Atom::gneighborweights(){
+    vector <double> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(neighborweight[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sdistvecs(vector<vector<double>> nss){
+
+}
+
+vector<vector<double>> Atom::gdistvecs(){
+    vector<vector<double>> m1;
+    vector <double> m2;
+
+    for(int i=0; i<n_neighbors; i++){
+        m2.clear();
+        m2.emplace_back(n_diffx[i]);
+        m2.emplace_back(n_diffy[i]);
+        m2.emplace_back(n_diffz[i]);
+
+        m1.emplace_back(m2);
+    }
+    return m1;
+}
+
+void Atom::slocalangles(vector<vector<double>> nss){
+
+}
+
+vector<vector<double>> Atom::glocalangles(){
+    vector<vector<double>> m1;
+    vector <double> m2;
+
+    for(int i=0; i<n_neighbors; i++){
+        m2.clear();
+        m2.emplace_back(n_phi[i]);
+        m2.emplace_back(n_theta[i]);
+
+        m1.emplace_back(m2);
+    }
+    return m1;
+}
+
+//-------------------------------------------------------
+// Q parameter properties
+//-------------------------------------------------------
+void Atom::ssij(vector<double> dd){
+}
+
+vector<double> Atom::gsij(){
+  vector<double> ss;
+  for(int i=0; i<n_neighbors; i++){
+    ss.emplace_back(sij[i]);
+  }
+  return ss;
+}
+
+vector<double> Atom::gallq(){
+    vector<double> allq;
+    for(int i=0; i<11; i++){
+        allq.emplace_back(q[i]);
+    }
+    return allq;
+}
+
+vector<double> Atom::gallaq(){
+    vector<double> allq;
+    for(int i=0; i<11; i++){
+        allq.emplace_back(aq[i]);
+    }
+    return allq;
+}
+
+void Atom::sallq(vector<double> allq){
+    for(int i=0; i<11; i++){
+        q[i] = allq[i];
+    }
+}
+
+void Atom::sallaq(vector<double> allaq){
+    for(int i=0; i<11; i++){
+        aq[i] = allaq[i];
+    }
+}
+double Atom::gq(int qq){ return q[qq-2]; }
+void Atom::sq(int qq, double qval){ q[qq-2] = qval; }
+
+double Atom::gaq(int qq){ return aq[qq-2]; }
+void Atom::saq(int qq, double qval){ aq[qq-2] = qval; }
+
+double Atom::gq_big(int qval, bool averaged){
+
+    if ((qval < 2) || (qval > 12)){
+        throw invalid_argument("q value should be between 2-12");
+    }
+    if(averaged == true) { return gaq(qval);}
+    else {return gq(qval);}
+}
+
+void Atom::sq_big(int qval, double val,  bool averaged){
+
+    if ((qval < 2) || (qval > 12)){
+        throw invalid_argument("q value should be between 2-12");
+    }
+    if(averaged == true) { saq(qval, val);}
+    else { sq(qval, val);}
+}
+
+//overloaded version which takes a vector
+vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
+    int d;
+    if(averaged == true) {
+        vector<double> retvals;
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            retvals.push_back(gaq(qval[i]));
+        }
+        return retvals;
+    }
+    else {
+        vector<double> retvals;
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            retvals.push_back(gq(qval[i]));
+        }
+        return retvals;
+    }
+}
+
+//overloaded version which takes a vector
+void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
+
+    if(averaged == true) {
+
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+
+            saq(qval[i], setvals[i]);
+        }
+    }
+    else {
+
+        for(int i=0; i<qval.size(); i++){
+            if ((qval[i] < 2) || (qval[i] > 12)){
+                throw invalid_argument("q value should be between 2-12");
+            }
+            sq(qval[i], setvals[i]);
+        }
+    }
+}
+
+
+vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
+
+  vector<complex<double>> qlms;
+  qlms.reserve(2*qq+1);
+  if (!averaged){
+    for(int i=0;i<(2*qq+1);i++){
+        complex<double> lmval(realq[qq-2][i], imgq[qq-2][i]);
+        qlms.emplace_back(lmval);
+    }
+  }
+  else{
+    for(int i=0;i<(2*qq+1);i++){
+        complex<double> lmval(arealq[qq-2][i], aimgq[qq-2][i]);
+        qlms.emplace_back(lmval);
+    }
+  }
+  return qlms;
+}
+
+
+//-------------------------------------------------------
+// Solid related properties
+//-------------------------------------------------------
+
+
+
+
+//-------------------------------------------------------
+// Voronoi related properties
+//-------------------------------------------------------
+void Atom::sfacevertices(vector<int> nss){
+    for(int i=0; i<nss.size(); i++){
+        facevertices[i] = nss[i];
+    }
+}
+
+vector<int> Atom::gfacevertices(){
+    vector <int> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(facevertices[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sfaceperimeters(vector<double> nss){
+    for(int i=0; i<nss.size(); i++){
+        faceperimeters[i] = nss[i];
+    }
+}
+
+vector<double> Atom::gfaceperimeters(){
+    vector <double> rqlms;
+    for(int i=0; i<n_neighbors; i++){
+        rqlms.emplace_back(faceperimeters[i]);
+    }
+    return rqlms;
+}
+
+void Atom::sedgelengths(vector<vector<double>> nss){
+    edgelengths.clear();
+    edgelengths = nss;
+}
+
+vector<vector<double>> Atom::gedgelengths(){
+    return edgelengths;
+}
+
+void Atom::svertexpositions(vector<vector<double>> nss){
+    vertex_positions.clear();
+    vertex_positions = nss;
+}
+
+vector<vector<double>> Atom::gvertexpositions(){
+    return vertex_positions;
+}
+
+vector<int> Atom::gvorovector(){
+    vector<int> voro;
+    voro.emplace_back(n3);
+    voro.emplace_back(n4);
+    voro.emplace_back(n5);
+    voro.emplace_back(n6);
+    return voro;
+}
+
+void Atom::svorovector(vector<int> voro){
+
+    n3 = voro[0];
+    n4 = voro[1];
+    n5 = voro[2];
+    n6 = voro[3];
+}
+
+//-------------------------------------------------------
+// Angle related properties
+//-------------------------------------------------------
+
+
+//-------------------------------------------------------
+// Other order parameters
+//-------------------------------------------------------
+
+double Atom::gmr(double r)
+{
+        double g = 0.00;
+        double rij,r2;
+        double sigma2 = sigma*sigma;
+        double frho = 4.00*PI*rho*r*r;
+        double fsigma = sqrt(2.00*PI*sigma2);
+        double factor = (1.00/frho)*(1.00/fsigma);
+
+        for(int i=0; i<n_neighbors; i++)
+        {
+                rij = neighbordist[i];
+                r2 = (r-rij)*(r-rij);
+                g+=exp((-1.00*r2)/(2.00*sigma2));
+        }
+
+        return factor*g;
+}
+
+//function which is to be integrated
+double Atom::entropy_integrand(double r)
+{
+        double g = gmr(r);
+        //g*log(g) goes to zero with g
+        if (g <= 0) return r*r;
+        return ((g*log(g)-g +1.00)*r*r);
+}
+
+
+void Atom::trapezoid_integration()
+{
+
+        int nsteps = (rstop - rstart)/h;
+        double summ;
+        double xstart, xend;
+        summ=0.00;
+        double rloop;
+        double integral;
+
+        xstart = entropy_integrand(rstart);
+
+        for(int j=1; j<nsteps-1; j++)
+        {
+
+                rloop = rstart + j*h;
+                summ += entropy_integrand(rloop);
+
+        }
+
+        xend = entropy_integrand(rstart + nsteps*h);
+        integral = (h/2.00)*(xstart + 2.00*summ + xend);
+        //cout<<xstart<<endl;
+        integral = -1.*rho*kb*integral;
+        entropy = integral;
+}
+
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index ad70579..d2750a5 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1,2721 +1,2721 @@
-#include "system.h"
-#include <iostream>
-#include <iomanip>
-#include <algorithm>
-#include <stdio.h>
-#include "voro++.hh"
-#include "string.h"
-#include <chrono>
-#include <pybind11/stl.h>
-
-using namespace voro;
-
-//-----------------------------------------------------
-// Constructor, Destructor and Access functions
-//-----------------------------------------------------
-System::System(){
-
-    nop = 0;
-    ghost_nop = 0;
-    real_nop = 0;
-    triclinic = 0;
-    usecells = 0;
-    filter = 0;
-    maxclusterid = -1;
-    
-    alpha = 1;
-    voronoiused = 0;
-    solidq = 6;
-    criteria = 0;
-    comparecriteria = 0;
-    
-    neighbordistance = 0;
-    cells = NULL;
-
-    //set box with zeros
-    for(int i=0; i<3; i++){
-        for(int j=0; j<3; j++){
-            box[i][j] = 0.0;
-        }
-    }
-
-}
-
-System::~System(){
-}
-
-//-----------------------------------------------------
-// Simulation box related methods
-//-----------------------------------------------------
-void System::assign_triclinic_params(vector<vector<double>> drot, vector<vector<double>> drotinv){
-
-    for(int i=0; i<3; i++){
-        for(int j=0; j<3; j++){
-            rot[i][j] = drot[i][j];
-            rotinv[i][j] = drotinv[i][j];
-        }
-    }
-
-    triclinic = 1;
-}
-
-vector<vector<double>> System::get_triclinic_params(){
-
-    vector<vector<double>> drot;
-    vector<double> dummydrot;
-    for(int i=0; i<3; i++){
-        dummydrot.clear();
-        for(int j=0; j<3; j++){
-            dummydrot.emplace_back(rot[i][j]);
-        }
-        drot.emplace_back(dummydrot);
-    }
-    return drot;
-}
-
-void System::sbox(vector<vector <double>> boxd) {
-
-    //this method will be redone to get a 3x3 box
-    //always. They will be then translated to the
-    //corresponding other boxes
-    double isum;
-
-    for(int i=0; i<3; i++){
-        isum = 0;
-        for(int j=0; j<3; j++){
-            box[i][j] = boxd[i][j];
-            isum += boxd[i][j]*boxd[i][j];
-        }
-        boxdims[i][0] = 0;
-        boxdims[i][1] = sqrt(isum);
-
-    }
-
-    boxx = boxdims[0][1] - boxdims[0][0];
-    boxy = boxdims[1][1] - boxdims[1][0];
-    boxz = boxdims[2][1] - boxdims[2][0];
-}
-
-vector<vector<double>> System::gbox(){
-    vector<vector<double>> qres;
-    vector<double> qd;
-
-    for(int i=0;i<3;i++){
-        qd.clear();
-        for(int j=0;j<3;j++){
-            qd.emplace_back(box[i][j]);
-        }
-        qres.emplace_back(qd);
-    }
-    return qres;
-}
-
-
-//-----------------------------------------------------
-// Atom related methods
-//-----------------------------------------------------
-//this function allows for handling custom formats of atoms and so on
-void System::set_atoms( vector<Atom> atomitos){
-
-    atoms.clear();
-    nop = atomitos.size();
-    atoms.reserve(nop);
-    atoms.assign(atomitos.begin(), atomitos.end());
-
-    //now assign ghost and real atoms
-    int tg = 0;
-    int tl = 0;
-
-    for(int i=0; i<nop; i++){
-        //set_atom puts an atom back to this place
-        atoms[i].loc = i;
-        if(atoms[i].ghost==0){
-            tl++;
-        }
-        else{
-            tg++;
-        }
-    }
-
-    ghost_nop = tg;
-    real_nop = tl;
-    //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
-    //cout<<nop<<endl;
-
-}
-
-
-//this function allows for handling custom formats of atoms and so on
-vector<Atom> System::get_atoms( ){
-    //here, we have to filter ghost atoms
-    vector<Atom> retatoms;
-    for(int i=0; i<real_nop; i++){
-        retatoms.emplace_back(atoms[i]);
-    }
-    return retatoms;
-
-}
-
-void System::add_atoms(vector<Atom> atomitos){
-
-    
-
-    //check for ghost atoms
-    int tg = 0;
-    int tl = 0;
-
-    for(int i=0; i<atomitos.size(); i++){
-        if(atomitos[i].ghost==0){
-            tl++;
-        }
-        else{
-            tg++;
-        }
-    }
-
-    //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
-        }
-    }
-    else if (ghost_nop>0){
-        //now the atoms need to be reordered
-        vector<Atom> real_atoms;
-        vector<Atom> ghost_atoms;        
-        
-        for(int i=0; i<nop; i++){
-            if(atoms[i].ghost==0){
-                real_atoms.emplace_back(atoms[i]);
-            }
-            else{
-                ghost_atoms.emplace_back(atoms[i]);
-            }
-        }
-        //now also add new atoms to the list
-        for (int i=0; i<atomitos.size(); i++){
-            if(atomitos[i].ghost==0){
-                real_atoms.emplace_back(atomitos[i]);
-            }
-            else{
-                ghost_atoms.emplace_back(atomitos[i]);
-            }            
-        }
-        //now put them all in the big list
-        atoms.clear();
-
-        for(int i=0; i<real_atoms.size(); i++){
-            atoms.emplace_back(real_atoms[i]);
-        }
-        for(int i=0; i<ghost_atoms.size(); i++){
-            atoms.emplace_back(ghost_atoms[i]);
-        }
-
-        //we can clear now
-        real_atoms.clear();
-        ghost_atoms.clear();
-    }
-
-    //update 
-    ghost_nop = ghost_nop + tg;
-    real_nop = real_nop + tl;
-    nop = nop + atomitos.size();
-
-    for(int i=0; i<atoms.size(); i++){
-        atoms[i].loc = i;
-    }
-}
-
-
-vector<Atom> System::get_all_atoms( ){
-    //here, we have to filter ghost atoms
-    vector<Atom> retatoms;
-    for(int i=0; i<nop; i++){
-        retatoms.emplace_back(atoms[i]);
-    }
-    return retatoms;
-
-}
-
-Atom System::gatom(int i) {
-    if ((i < 0) || (i >= nop))
-        throw out_of_range("there is no atom at this index");
-    return atoms[i];
-}
-void System::satom(Atom atom1) {
-    int idd = atom1.loc;
-    if ((idd < 0) || (idd >= nop))
-        throw out_of_range("there is no atom at this index");
-    atoms[idd] = atom1;
-}
-
-//----------------------------------------------------
-// Neighbor methods
-//----------------------------------------------------
-
-double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
-
-    double abs, ax, ay, az;
-    diffx = atoms[tj].posx - atoms[ti].posx;
-    diffy = atoms[tj].posy - atoms[ti].posy;
-    diffz = atoms[tj].posz - atoms[ti].posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-        //finally distance
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-
-    }
-    else{
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-    }
-    return abs;
-}
-
-//function for binding
-double System::get_abs_distance(Atom atom1 , Atom atom2 ){
-
-    double abs, ax, ay, az;
-    double diffx = atom1.posx - atom2.posx;
-    double diffy = atom1.posy - atom2.posy;
-    double diffz = atom1.posz - atom2.posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-        //finally distance
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-
-    }
-    else{
-
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
-    }
-
-    return abs;
-}
-
-//function for binding
-vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
-
-    double ax, ay, az;
-    double diffx = atom1.posx - atom2.posx;
-    double diffy = atom1.posy - atom2.posy;
-    double diffz = atom1.posz - atom2.posz;
-
-    if (triclinic == 1){
-
-        //convert to the triclinic system
-        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
-        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
-        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
-
-      double dummy;
-        //scale to match the triclinic box size
-        diffx = ax*boxx;
-        diffy = ay*boxy;
-        diffz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        diffx = diffx/boxx;
-        diffy = diffy/boxy;
-        diffz = diffz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
-        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
-        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
-
-        //now assign to diffs and calculate distnace
-        diffx = ax;
-        diffy = ay;
-        diffz = az;
-
-    }
-    else{
-
-        //nearest image
-        if (diffx> boxx/2.0) {diffx-=boxx;};
-        if (diffx<-boxx/2.0) {diffx+=boxx;};
-        if (diffy> boxy/2.0) {diffy-=boxy;};
-        if (diffy<-boxy/2.0) {diffy+=boxy;};
-        if (diffz> boxz/2.0) {diffz-=boxz;};
-        if (diffz<-boxz/2.0) {diffz+=boxz;};
-
-    }
-
-    vector<double> abs;
-    abs.emplace_back(diffx);
-    abs.emplace_back(diffy);
-    abs.emplace_back(diffz);
-
-    return abs;
-}
-
-
-void System::reset_all_neighbors(){
-    for (int ti = 0;ti<nop;ti++){
-
-        atoms[ti].n_neighbors=0;
-        atoms[ti].temp_neighbors.clear();
-        atoms[ti].condition = 0;
-
-        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
-
-            atoms[ti].neighbors[tn] = NILVALUE;
-            atoms[ti].neighbordist[tn] = -1.0;
-        }
-    }
-}
-
-void System::reset_main_neighbors(){
-    for (int ti = 0;ti<nop;ti++){
-
-        atoms[ti].n_neighbors=0;
-        atoms[ti].condition = 0;
-        //atoms[ti].temp_neighbors.clear();
-
-        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
-
-            atoms[ti].neighbors[tn] = NILVALUE;
-            atoms[ti].neighbordist[tn] = -1.0;
-        }
-    }
-}
-
-
-vector<double> System::get_pairdistances(){
-
-    vector<double> res;
-    double d;
-    double diffx,diffy,diffz;
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            res.emplace_back(d);
-
-        }
-    }
-    return res;
-}
-
-//function to create cell lists
-//snmall function that returns cell index when provided with cx, cy, cz
-int System::cell_index(int cx, int cy, int cz){
-    return cx*ny*nz + cy*nz + cz;
-}
-
-
-//if number of particles are small, use brute force
-//if box is triclinic, use brute force
-//with less than three cells along a direction a cell is its own neighbor more than once
-bool System::cells_possible(){
-    if (triclinic == 1) return false;
-    return ((boxx/neighbordistance >= 3) && (boxy/neighbordistance >= 3) && (boxz/neighbordistance >= 3));
-}
-
-void System::set_up_cells(){
-
-      int si,sj,sk, maincell, subcell;
-      vector<int> cc;
-      //find of all find the number of cells in each direction
-      nx = boxx/neighbordistance;
-      ny = boxy/neighbordistance;
-      nz = boxz/neighbordistance;
-      //now use this to find length of cell in each direction
-      double lx = boxx/nx;
-      double ly = boxy/ny;
-      double lz = boxz/nz;
-      //find the total number of cells
-      total_cells = nx*ny*nz;
-      //create a vector of cells
-      delete[] cells;
-      cells = new cell[total_cells];
-      //now run over and for each cell create its neighbor cells
-      //all neighbor cells are also added
-      for(int i=0; i<nx; i++){
-         for(int j=0; j<ny; j++){
-           for(int k=0; k<nz; k++){
-              maincell = cell_index(i, j, k);
-              for(int si=i-1; si<=i+1; si++){
-                  for(int sj=j-1; sj<=j+1; sj++){
-                      for(int sk=k-1; sk<=k+1; sk++){
-                         cc = cell_periodic(si, sj, sk);
-                         subcell = cell_index(cc[0], cc[1], cc[2]);
-                         //add this to the list of neighbors
-                         cells[maincell].neighbor_cells.emplace_back(subcell);
-
-                      }
-                  }
-              }
-           }
-         }
-      }
-      int cx, cy, cz;
-      double dx, dy, dz;
-      double ddx, ddy, ddz;
-      int ind;
-
-      //now loop over all atoms and assign cells
-      for(int ti=0; ti<nop; ti++){
-
-          //calculate c indices for the atom
-          dx = atoms[ti].posx;
-          dy = atoms[ti].posy;
-          dz = atoms[ti].posz;
-          
-          //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
-          //atoms can be any number of boxes away from the origin
-          dx -= boxx*floor(dx/boxx);
-          dy -= boxy*floor(dy/boxy);
-          dz -= boxz*floor(dz/boxz);
-
-          //now find c vals; rounding must not lead out of the last cell
-          cx = min(int(dx/lx), nx-1);
-          cy = min(int(dy/ly), ny-1);
-          cz = min(int(dz/lz), nz-1);
-
-          //now get cell index
-          ind = cell_index(cx, cy, cz);
-          //got cell index
-          //now add the atom to the corresponding cells
-          cells[ind].members.emplace_back(ti);
-
-      }
-      //end of loop - all cells, the member atoms and neighboring cells are added
-}
-
-vector<double> System::remap_atom(vector<double> pos){
-    //remap atom position into the box
-    //now apply boxdims
-    double dx = pos[0];
-    double dy = pos[1];
-    double dz = pos[2];
-    double ax, ay, az;
-
-    if (triclinic == 1){
-        //convert to the triclinic system
-        ax = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
-        ay = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
-        az = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
-
-        //scale to match the triclinic box size
-        dx = ax*boxx;
-        dy = ay*boxy;
-        dz = az*boxz;
-
-        //now check pbc
-        //nearest image
-        if (dx> boxx/2.0) {dx-=boxx;};
-        if (dx<-boxx/2.0) {dx+=boxx;};
-        if (dy> boxy/2.0) {dy-=boxy;};
-        if (dy<-boxy/2.0) {dy+=boxy;};
-        if (dz> boxz/2.0) {dz-=boxz;};
-        if (dz<-boxz/2.0) {dz+=boxz;};
-
-        //now divide by box vals - scale down the size
-        dx = dx/boxx;
-        dy = dy/boxy;
-        dz = dz/boxz;
-
-        //now transform back to normal system
-        ax = rot[0][0]*dx + rot[0][1]*dy + rot[0][2]*dz;
-        ay = rot[1][0]*dx + rot[1][1]*dy + rot[1][2]*dz;
-        az = rot[2][0]*dx + rot[2][1]*dy + rot[2][2]*dz;
-
-        //now assign to diffs and calculate distnace
-        dx = ax;
-        dy = ay;
-        dz = az;
-    }
-    else{
-        if (dx < 0) dx+=boxx;
-        else if (dx >= boxx) dx-=boxx;
-        if (dy < 0) dy+=boxy;
-        else if (dy >= boxy) dy-=boxy;
-        if (dz < 0) dz+=boxz;
-        else if (dz >= boxz) dz-=boxz;
-    }
-    vector<double> rpos;
-    rpos.emplace_back(dx);
-    rpos.emplace_back(dy);
-    rpos.emplace_back(dz);
-    return rpos;
-
-}
-
-vector<int> System::cell_periodic(int i, int j, int k){
-    vector<int> ci;
-    //apply periodic conditions
-    if (i<0) i = i + nx;
-    else if (i>nx-1) i = i -nx;
-    ci.emplace_back(i);
-    if (j<0) j = j + ny;
-    else if (j>ny-1) j = j -ny;
-    ci.emplace_back(j);
-    if (k<0) k = k + nz;
-    else if (k>nz-1) k = k -nz;
-    ci.emplace_back(k);
-    return ci;
-
-}
-
-//get all neighbor info but using cell lists
-void System::get_all_neighbors_cells(){
-
-    voronoiused = 0;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int ti, tj;
-    if (!cells_possible()){
-        get_all_neighbors_normal();
-        return;
-    }
-
-    //atoms without any neighbor have a cutoff too
-    for (int ti=0; ti<nop; ti++){
-        atoms[ti].cutoff = neighbordistance;
-    }
-
-    //first create cells
-    set_up_cells();
-    int maincell, subcell;
-
-    //now loop to find distance
-    for(int i=0; i<total_cells; i++){
-        //now go over the neighbor cells
-        //for each member in cell i
-        for(int mi=0; mi<cells[i].members.size(); mi++){
-            //now go through the neighbors
-            ti = cells[i].members[mi];
-            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
-               //loop through members of j
-               subcell = cells[i].neighbor_cells[j];
-               for(int mj=0; mj<cells[subcell].members.size(); mj++){
-                  //now we have mj -> members/compare with
-                  tj = cells[subcell].members[mj];
-                  //compare ti and tj and add
-                  if (ti < tj){
-                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                      if (d < neighbordistance){
-
-                        if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                            continue;
-                        }
-                        else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                            continue;
-                        }
-                        check_neighbor_space(ti);
-                        check_neighbor_space(tj);
-                        //process_neighbor(ti, tj);
-                        atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                        atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-                        //weight is set to 1.0, unless manually reset
-                        atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                        atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                        atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                        atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                        convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                        atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                        atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                        atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                        atoms[ti].n_neighbors += 1;
-                        atoms[ti].cutoff = neighbordistance;
-
-                        atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
-                        atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
-                        //weight is set to 1.0, unless manually reset
-                        atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
-                        atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
-                        atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
-                        atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
-                        convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
-                        atoms[tj].n_r[atoms[tj].n_neighbors] = r;
-                        atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
-                        atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
-                        atoms[tj].n_neighbors +=1;
-                        atoms[tj].cutoff = neighbordistance;
-                      }
-                  }
-               }
-
-            }
-
-        }
-    }
-
-
-}
-
-
-
-void System::get_all_neighbors_normal(){
-
-
-    //reset voronoi flag
-    voronoiused = 0;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-
-    for (int ti=0; ti<nop; ti++){
-        atoms[ti].cutoff = neighbordistance;
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            if (d < neighbordistance){
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                    continue;
-                }
-                check_neighbor_space(ti);
-                check_neighbor_space(tj);
-                //process_neighbor(ti, tj);
-                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = neighbordistance;
-
-                atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
-                atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
-                atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
-                atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
-                atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
-                convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
-                atoms[tj].n_r[atoms[tj].n_neighbors] = r;
-                atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
-                atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
-                atoms[tj].n_neighbors +=1;
-                atoms[tj].cutoff = neighbordistance;
-            }
-        }
-
-    }
-
-
-}
-
-void System::check_neighbor_space(int ti){
-    /*
-    The lists of an atom have a fixed size
-     */
-    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS)
-        throw runtime_error("Too many neighbors - try reducing the cutoff");
-}
-
-bool System::is_filtered(int ti, int tj){
-    /*
-    Check if the type filter leaves out tj as a neighbor of ti
-     */
-    if ((filter == 1) && (atoms[ti].type != atoms[tj].type)) return true;
-    if ((filter == 2) && (atoms[ti].type == atoms[tj].type)) return true;
-    return false;
-}
-
-void System::process_neighbor(int ti, int tj){
-    /*
-    Calculate all info and add it to list
-    ti - loc of host atom
-    tj - loc of the neighbor
-     d - interatomic distance
-     */
-
-    double d, diffx, diffy, diffz;
-    double r, phi, theta;
-
-    check_neighbor_space(ti);
-    d = get_abs_distance(ti, tj, diffx,diffy,diffz);
-
-    atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-    atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
-    //weight is set to 1.0, unless manually reset
-    atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-    atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-    atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-    atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-    convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-    atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-    atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-    atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-    atoms[ti].n_neighbors += 1;
-
-}
-
-/*
-To increase the speed of the other methods, we need some functions using cells and
-otheriwse which adds atoms to the temp_neighbors list
-*/
-void System::get_temp_neighbors_brute(){
-
-    //reset voronoi flag
-
-    double d;
-    double diffx,diffy,diffz;
-
-    for (int ti=0; ti<nop; ti++){
-        atoms[ti].temp_neighbors.clear();
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        for (int tj=ti; tj<nop; tj++){
-            if(ti==tj) { continue; }
-            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-            if (d <= neighbordistance){
-                datom x = {d, tj};
-                atoms[ti].temp_neighbors.emplace_back(x);
-                datom y = {d, ti};
-                atoms[tj].temp_neighbors.emplace_back(y);
-            }
-        }
-    }
-
-}
-
-/*
-Cells should only be used when the system has a minimum size - in this case,
-about 2000 atoms.
-*/
-void System::get_temp_neighbors_cells(){
-
-    if (!cells_possible()){
-        get_temp_neighbors_brute();
-        return;
-    }
-
-    //first create cells
-    set_up_cells();
-
-    int maincell, subcell;
-    int ti, tj;
-    double d;
-    double diffx,diffy,diffz;
-
-    for (int i=0; i<nop; i++){
-        atoms[i].temp_neighbors.clear();
-    }
-
-    //now loop to find distance
-    for(int i=0; i<total_cells; i++){
-        //now go over the neighbor cells
-        //for each member in cell i
-        for(int mi=0; mi<cells[i].members.size(); mi++){
-            //now go through the neighbors
-            ti = cells[i].members[mi];
-            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
-               //loop through members of j
-               subcell = cells[i].neighbor_cells[j];
-               for(int mj=0; mj<cells[subcell].members.size(); mj++){
-                  //now we have mj -> members/compare with
-                  tj = cells[subcell].members[mj];
-                  //compare ti and tj and add
-                  if (ti < tj){
-                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                      if (d < neighbordistance){
-                        datom x = {d, tj};
-                        atoms[ti].temp_neighbors.emplace_back(x);
-                        datom y = {d, ti};
-                        atoms[tj].temp_neighbors.emplace_back(y);
-                      }
-                  }
-               }
-
-            }
-
-        }
-    }
-
-}
-int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom. But ONLY TEMP neighbors
-    */
-
-    //reset voronoi flag
-    voronoiused = 0;
-    
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-    finished = 1;
-
-    vector<int> nids;
-    vector<double> dists, sorted_dists;
-
-        //double prefactor = 1.21;
-    double summ;
-    double boxvol;
-
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-    //now find the volume per particle
-    double guessvol = fabs(boxvol)/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].temp_neighbors.size() < nns){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        if(assign == 1){
-            //assign the closest neighbors that pass the filter
-            for(int i=0; (i<atoms[ti].temp_neighbors.size()) && (atoms[ti].n_neighbors<nns); i++){
-                int tj = atoms[ti].temp_neighbors[i].index;
-                if (is_filtered(ti, tj)) continue;
-                process_neighbor(ti, tj);
-            }
-            if (atoms[ti].n_neighbors < nns){
-                return 0;
-            }
-            atoms[ti].cutoff = atoms[ti].neighbordist[nns-1];
-        }
-
-        finished = 1;            
-    }
-
-
-    return finished;
-
-
-}
-
-void System::set_atom_cutoff(double factor){
-    /*
-    Reassign atom cutoff
-    */
-    int nn;
-    double sum;
-    double avgdist;
-
-    for (int ti=0; ti<nop; ti++){
-        nn = atoms[ti].n_neighbors;
-        sum = 0;
-        for (int j=0; j<nn; j++){
-            sum += atoms[ti].neighbordist[j];
-        }
-        avgdist = sum/(double(nn));
-        atoms[ti].cutoff = factor*avgdist;
-    }
-}
-
-int System::get_neighbors_from_temp(int style){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom.
-    */
-
-    int finished = 1;
-    //reset neighbors
-    reset_main_neighbors();
-
-    if (style == 12){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 11){
-                double ssum = 0;
-                for(int i=0 ; i<12; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                //process sum
-                atoms[ti].lcutsmall = 1.2071*ssum/12;
-                //now assign neighbors based on this
-                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    double dist = atoms[ti].temp_neighbors[i].dist;
-                    if (dist <= atoms[ti].lcutsmall)
-                        process_neighbor(ti, tj);
-                }
-                finished = 1;                                  
-            }
-            else{
-                return 0;
-            }
-        }
-    }
-    else if (style == 14){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 13){
-                double ssum = 0;
-                for(int i=0 ; i<8; i++){
-                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
-                }
-                for(int i=8 ; i<14; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                atoms[ti].lcutlarge = 1.2071*ssum/14;
-                //now assign neighbors based on this
-                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    double dist = atoms[ti].temp_neighbors[i].dist;
-                    if (dist <= atoms[ti].lcutlarge)
-                        process_neighbor(ti, tj);
-                }
-                finished = 1;                                  
-            }
-            else{
-                return 0;
-            }
-        }
-    }
-
-
-    return finished;
-
-
-}
-
-
-void System::store_neighbor_info(){
-    /*
-    Method to assign neighbors and next nearest neighbors
-
-    */    
-    int nn;
-
-    for (int ti=0; ti<nop; ti++){
-
-        atoms[ti].next_neighbors.clear();
-        atoms[ti].next_neighbor_distances.clear();
-        atoms[ti].next_neighbor_counts.clear();
-        
-        atoms[ti].next_neighbors.resize(atoms[ti].n_neighbors);
-        atoms[ti].next_neighbor_distances.resize(atoms[ti].n_neighbors);
-        atoms[ti].next_neighbor_counts.resize(atoms[ti].n_neighbors);
-
-        for(int i=0; i<atoms[ti].n_neighbors; i++){
-            nn = atoms[ti].neighbors[i];
-            atoms[ti].next_neighbor_counts[i] = atoms[nn].n_neighbors;
-            for(int j=0; j<atoms[nn].n_neighbors; j++){
-                atoms[ti].next_neighbors[i].emplace_back(atoms[nn].neighbors[j]);
-                atoms[ti].next_neighbor_distances[i].emplace_back(atoms[nn].neighbordist[j]);
-            }
-        }
-    }
-}
-
-
-
-
-int System::get_all_neighbors_sann(double prefactor){
-    /*
-    A new adaptive algorithm. Similar to the old ones, we guess a basic distance with padding,
-    and sort them up.
-    After that, we use the algorithm by in J. Chem. Phys. 136, 234107 (2012) to find the list of
-    neighbors.
-     */
-
-    //reset voronoi flag
-    voronoiused = 0;
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-    finished = 1;
-
-    vector<int> nids;
-    vector<double> dists, sorted_dists;
-
-    //double prefactor = 1.21;
-    double summ;
-    double boxvol;
-
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-
-    //now find the volume per particle
-    double guessvol = fabs(boxvol)/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].temp_neighbors.size() < 3){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        //start with initial routine
-        m = 3;
-        summ = 0;
-        for(int i=0 ; i<m; i++){
-            summ += atoms[ti].temp_neighbors[i].dist;
-            int tj = atoms[ti].temp_neighbors[i].index;
-            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
-        }
-
-        //find cutoff
-        dcut = summ/float(m-2);
-        atoms[ti].cutoff = dcut;
-        maxneighs = atoms[ti].temp_neighbors.size();
-
-        while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
-            //increase m
-            m = m+1;
-            //all candidates are used up, there is nothing beyond the last one
-            if (m == maxneighs) break;
-
-            //here now we can add this to the list neighbors and process things
-            int tj = atoms[ti].temp_neighbors[m].index;
-            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
-
-            //find new dcut
-            summ = summ + atoms[ti].temp_neighbors[m].dist;
-            dcut = summ/float(m-2);
-            atoms[ti].cutoff = dcut;
-        }
-
-        //find if there was an error
-        if (m==maxneighs){
-            finished = 0;
-            break;
-        }
-        else{
-            finished = 1;
-        }
-
-    }
-
-
-    return finished;
-
-
-}
-
-
-
-int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
-
-    //reset voronoi flag
-    voronoiused = 0;
-
-    double d, dcut;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int m, maxneighs, finished;
-
-    double summ;
-    double boxvol;
-    //some guesswork here
-    //find the box volumes
-    if (triclinic==1){
-        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
-        //rot is the cell vectors transposed
-        a1 = rot[0][0];
-        a2 = rot[1][0];
-        a3 = rot[2][0];
-        b1 = rot[0][1];
-        b2 = rot[1][1];
-        b3 = rot[2][1];
-        c1 = rot[0][2];
-        c2 = rot[1][2];
-        c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
-    }
-    else{
-        boxvol = boxx*boxy*boxz;
-    }
-
-    //now find the volume per particle
-    double guessvol = fabs(boxvol)/float(nop);
-
-    //guess the side of a cube that is occupied by an atom - this is a guess distance
-    double guessdist = cbrt(guessvol);
-
-    //now add some safe padding - this is the prefactor which we will read in
-    guessdist = prefactor*guessdist;
-    neighbordistance = guessdist;
-
-    //introduce cell lists here - instead of looping over all neighbors
-    //use cells
-
-    if (usecells){
-        get_temp_neighbors_cells();
-    }
-    else{
-        get_temp_neighbors_brute();
-    }
-
-    //end of callstructural competition
-    //subatoms would now be populated
-    //now starts the main loop
-    for (int ti=0; ti<nop; ti++){
-        //check if its zero size
-        if (atoms[ti].temp_neighbors.size() < nlimit){
-            return 0;
-        }
-
-        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
-
-        summ = 0;
-        for(int i=0; i<nlimit; i++){
-            summ += atoms[ti].temp_neighbors[i].dist;
-        }
-        dcut = padding*(1.0/float(nlimit))*summ;
-
-        //candidates are only known up to the guessed distance
-        if (dcut > neighbordistance){
-            return 0;
-        }
-
-        atoms[ti].cutoff = dcut;
-        //now we are ready to loop over again, but over the lists
-        for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
-            int tj = atoms[ti].temp_neighbors[j].index;
-            if (atoms[ti].temp_neighbors[j].dist < dcut){
-
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
-                    continue;
-                }
-                check_neighbor_space(ti);
-                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
-                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
-                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
-                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
-                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
-                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
-                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
-                atoms[ti].n_neighbors += 1;
-                atoms[ti].cutoff = dcut;
-
-            }
-        }
-
-    }
-
-
-    return 1;
-
-}
-
-void System::set_neighbordistance(double nn) { neighbordistance = nn; }
-
-
-//---------------------------------------------------
-// Methods for q calculation
-//---------------------------------------------------
-double System::dfactorial(int l,int m){
-
-    double fac = 1.00;
-    for(int i=0;i<2*m;i++){
-        fac*=double(l+m-i);
-    }
-    return (1.00/fac);
-}
-
-void System::set_reqd_qs(vector <int> qs){
-
-    lenqs = qs.size();
-    reqdqs = new int[lenqs];
-    for(int i=0;i<lenqs;i++){
-        reqdqs[i] = qs[i];
-    }
-
-    rq_backup = qs;
-}
-
-
-void System::set_reqd_aqs(vector <int> qs){
-
-    lenaqs = qs.size();
-    reqdaqs = new int[lenaqs];
-    for(int i=0;i<lenaqs;i++){
-        for(int j=0;j<lenqs;j++){
-            if(qs[i]==reqdqs[j]) { reqdaqs[i] = qs[i]; }
-        }
-    }
-    //only qvlaues in the normal set will be included in the aq list
-    //check here if its in the qlist
-    //cout<<"corresponding q value should also be set."<<endl;
-
-}
-
-double System::PLM(int l, int m, double x){
-
-    double fact,pll,pmm,pmmp1,somx2;
-    int i,ll;
-    pll = 0.0;
-    if (m < 0 || m > l || fabs(x) > 1.0)
-        cerr << "impossible combination of l and m" << "\n";
-    pmm=1.0;
-    if (m > 0){
-        somx2=sqrt((1.0-x)*(1.0+x));
-        fact=1.0;
-        for (i=1;i<=m;i++){
-            pmm *= -fact*somx2;
-            fact += 2.0;
-        }
-    }
-
-    if (l == m)
-        return pmm;
-    else{
-        pmmp1=x*(2*m+1)*pmm;
-        if (l == (m+1))
-            return pmmp1;
-        else{
-            for (ll=m+2;ll<=l;ll++){
-            pll=(x*(2*ll-1)*pmmp1-(ll+m-1)*pmm)/(ll-m);
-            pmm=pmmp1;
-            pmmp1=pll;
-            }
-        return pll;
-        }
-    }
-}
-
-void System::convert_to_spherical_coordinates(double x, double y, double z, double &r, double &phi, double &theta){
-    r = sqrt(x*x+y*y+z*z);
-    theta = acos(z/r);
-    phi = atan2(y,x);
-}
-
-
-void System::YLM(int l, int m, double theta, double phi, double &realYLM, double &imgYLM){
-
-    double factor;
-    double m_PLM;
-    m_PLM = PLM(l,m,cos(theta));
-    factor = ((2.0*double(l) + 1.0)/ (4.0*PI))*dfactorial(l,m);
-    realYLM = sqrt(factor) * m_PLM * cos(double(m)*phi);
-    imgYLM  = sqrt(factor) * m_PLM * sin(double(m)*phi);
-}
-
-
-void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &imgYLM ){
-
-    realYLM = 0.0;
-    imgYLM = 0.0;
-    if (m < 0) {
-        YLM(l, abs(m), theta, phi, realYLM, imgYLM);
-        realYLM = pow(-1.0,m)*realYLM;
-        //complex conjugate of the one with positive m
-        imgYLM = -pow(-1.0,m)*imgYLM;
-    }
-    else{
-        YLM(l, m, theta, phi, realYLM, imgYLM);
-    }
-}
-
-void System::calculate_complexQLM_6(){
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    double realYLM,imgYLM;
-
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-        for (int mi = -6;mi < 7;mi++){
-
-            realti = 0.0;
-            imgti = 0.0;
-            for (int ci = 0;ci<nn;ci++){
-
-                QLM(6,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
-                realti += atoms[ti].neighborweight[ci]*realYLM;
-                imgti += atoms[ti].neighborweight[ci]*imgYLM;
-            }
-
-            realti = realti/(double(nn));
-            imgti = imgti/(double(nn));
-            atoms[ti].realq[4][mi+6] = realti;
-            atoms[ti].imgq[4][mi+6] = imgti;
-        }
-    }
-}
-
-//calculation of any complex qval
-void System::calculate_q(vector <int> qs){
-
-    //set_reqd_qs(qs);
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    double realYLM,imgYLM;
-    int q;
-    double summ;
-
-    //first make space in atoms for the number of qs needed - assign with null values
-    /*
-    for(int ti=0;ti<nop;ti++){
-        for(int tj=0;tj<11;tj++){
-
-            atoms[ti].q[tj] = -1;
-            atoms[ti].aq[tj] = -1;
-            for(int tk=0;tk<25;tk++){
-                atoms[ti].realq[tj][tk] = 0;
-                atoms[ti].imgq[tj][tk] = 0;
-                atoms[ti].arealq[tj][tk] = 0;
-                atoms[ti].aimgq[tj][tk] = 0;
-            }
-        }
-    }
-    */
-
-    //note that the qvals will be in -2 pos
-    //q2 will be in q0 pos and so on
-    double weightsum;
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-        //for(int tq=0;tq<lenqs;tq++){
-        for(int tq=0;tq<qs.size();tq++){
-            //find which q?
-            q = qs[tq];
-            //cout<<q<<endl;
-            summ = 0;
-            for (int mi = -q;mi < q+1;mi++){
-                realti = 0.0;
-                imgti = 0.0;
-                weightsum = 0;
-                for (int ci = 0;ci<nn;ci++){
-                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
-                    QLM(q,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
-                    realti += atoms[ti].neighborweight[ci]*realYLM;
-                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
-                    weightsum += atoms[ti].neighborweight[ci];
-                }
-
-            //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
-
-
-            atoms[ti].realq[q-2][mi+q] = realti;
-            atoms[ti].imgq[q-2][mi+q] = imgti;
-
-            summ+= realti*realti + imgti*imgti;
-            //summ+= realti;
-            }
-            //normalise summ
-            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
-            atoms[ti].q[q-2] = summ;
-
-        }
-
-    }
-
-}
-
-
-//calculation of any complex aqvalb
-void System::calculate_aq(vector <int> qs){
-
-    //nn = number of neighbors
-    int nn;
-    double realti,imgti;
-    //double realYLM,imgYLM;
-    int q;
-    double summ;
-    int nns;
-
-    //if (!qsfound) { calculate_q(qs); }
-    //note that the qvals will be in -2 pos
-    //q2 will be in q0 pos and so on
-
-    // nop = parameter.nop;
-    for (int ti= 0;ti<nop;ti++){
-
-        nn = atoms[ti].n_neighbors;
-
-        for(int tq=0;tq<qs.size();tq++){
-            //find which q?
-            q = qs[tq];
-            //cout<<q<<endl;
-            summ = 0;
-            for (int mi = 0;mi < 2*q+1;mi++){
-                realti = atoms[ti].realq[q-2][mi];
-                imgti = atoms[ti].imgq[q-2][mi];
-                nns = 0;
-                for (int ci = 0;ci<nn;ci++){
-                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
-                    realti += atoms[atoms[ti].neighbors[ci]].realq[q-2][mi];
-                    imgti += atoms[atoms[ti].neighbors[ci]].imgq[q-2][mi];
-                    nns += 1;
-                }
-
-            //realti = realti/weightsum;
-            //imgti = realti/weightsum;
-
-            realti = realti/(double(nns+1));
-            imgti = imgti/(double(nns+1));
-
-            atoms[ti].arealq[q-2][mi] = realti;
-            atoms[ti].aimgq[q-2][mi] = imgti;
-
-            summ+= realti*realti + imgti*imgti;
-            }
-            //normalise summ
-            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
-            atoms[ti].aq[q-2] = summ;
-
-        }
-
-    }
-}
-
-vector<double> System::gqvals(int qq){
-    vector<double> qres;
-    qres.reserve(real_nop);
-    for(int i=0;i<real_nop;i++){
-        qres.emplace_back(atoms[i].q[qq-2]);
-    }
-
-    return qres;
-}
-
-vector<double> System::gaqvals(int qq){
-    vector<double> qres;
-    qres.reserve(real_nop);
-    for(int i=0;i<real_nop;i++){
-        qres.emplace_back(atoms[i].aq[qq-2]);
-    }
-
-    return qres;
-}
-
-void System::calculate_disorder(){
-
-    //for disorder we need sjj which is dot product with itself, self dot prouct of neighbors
-    //and cross dot product
-    double sumSquareti;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    double dis;
-
-    for(int ti=0; ti<nop; ti++){
-
-        sumSquareti = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
-
-        for (int mi = 0;mi < 2*solidq+1 ;mi++){
-            sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-            realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi];
-            imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-        }
-        connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquareti)*sqrt(sumSquareti));
-        atoms[ti].sii = connection;
-
-    }
-
-    //first round is over
-    //now find cross terms
-    for(int ti=0; ti<nop; ti++){
-
-        dis = 0;
-
-        for(int c=0; c<atoms[ti].n_neighbors; c++){
-            int tj = atoms[ti].neighbors[c];
-            connection = get_number_from_bond(ti, tj);
-            dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
-        }
-        atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
-
-    }
-}
-
-void System::find_average_disorder(){
-    double vv;
-    int nn;
-
-    for (int ti= 0;ti<nop;ti++){
-        nn = atoms[ti].n_neighbors;
-        vv = atoms[ti].disorder;
-        for (int ci = 0; ci<nn; ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].disorder;
-        }
-        vv = vv/(double(nn+1));
-        atoms[ti].avgdisorder = vv;
-    }
-}
-//-----------------------------------------------------
-// Solids and Clustering methods
-//-----------------------------------------------------
-//also has to be overloaded - could be a useful function
-double System::get_number_from_bond(int ti,int tj){
-
-    double sumSquareti,sumSquaretj;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    sumSquareti = 0.0;
-    sumSquaretj = 0.0;
-    realdotproduct = 0.0;
-    imgdotproduct = 0.0;
-
-    for (int mi = 0;mi < 2*solidq+1 ;mi++){
-
-        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
-        sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-        realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
-        imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-    }
-
-    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-    //cout<<connection<<endl;
-    return connection;
-}
-
-//overloaded version
-double System::get_number_from_bond(Atom atom1,Atom atom2){
-
-    double sumSquareti,sumSquaretj;
-    double realdotproduct,imgdotproduct;
-    double connection;
-    sumSquareti = 0.0;
-    sumSquaretj = 0.0;
-    realdotproduct = 0.0;
-    imgdotproduct = 0.0;
-
-    for (int mi = 0;mi < 2*solidq+1 ;mi++){
-
-        sumSquareti += atom1.realq[solidq-2][mi]*atom1.realq[solidq-2][mi] + atom1.imgq[solidq-2][mi] *atom1.imgq[solidq-2][mi];
-        sumSquaretj += atom2.realq[solidq-2][mi]*atom2.realq[solidq-2][mi] + atom2.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
-        realdotproduct += atom1.realq[solidq-2][mi]*atom2.realq[solidq-2][mi];
-        imgdotproduct  += atom1.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
-    }
-
-    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
-    return connection;
-}
-
-void System::calculate_frenkel_numbers(){
-
-    int frenkelcons;
-    double scalar;
-
-    for (int ti= 0;ti<nop;ti++){
-
-        frenkelcons = 0;
-        atoms[ti].avq6q6 = 0.0;
-        for (int c = 0;c<atoms[ti].n_neighbors;c++){
-
-            scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
-            atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0){
-                if (scalar > threshold) frenkelcons += 1;
-            }
-            else{
-                if (scalar < threshold) frenkelcons += 1;
-            }
-
-            atoms[ti].avq6q6 += scalar;
-        }
-
-        atoms[ti].frenkelnumber = frenkelcons;
-        atoms[ti].avq6q6 /= atoms[ti].n_neighbors;
-
-    }
-}
-
-
-void System::find_solid_atoms(){
-
-    int tfrac;
-    if (criteria == 0){
-        for (int ti= 0;ti<nop;ti++){
-          if (comparecriteria == 0)
-            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 > avgthreshold) );
-          else
-            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 < avgthreshold) );
-        }
-    }
-    else if (criteria == 1){
-        for (int ti= 0;ti<nop;ti++){
-            tfrac = ((atoms[ti].frenkelnumber/double(atoms[ti].n_neighbors)) > minfrenkel);
-            if (comparecriteria == 0)
-                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 > avgthreshold));
-            else
-                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 < avgthreshold));
-        }
-    }
-
-}
-
-
-void System::find_clusters(double clustercutoff){
-        //Clustering methods should only run over real atoms
-        if (clustercutoff != 0){
-          for(int ti=0; ti<real_nop;ti++){
-              atoms[ti].cutoff = clustercutoff;
-          }
-        }
-        for(int ti=0; ti<real_nop;ti++){
-            atoms[ti].belongsto = -1;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++){
-
-            if (!atoms[ti].condition) continue;
-            if (atoms[ti].ghost) continue;
-
-            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
-            for (int c = 0;c<atoms[ti].n_neighbors;c++){
-
-                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
-                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
-                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
-                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
-                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
-                }
-                else{
-                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
-                }
-            }
-        }
-}
-
-//location of the atom of which ti is an image; images follow the
-//real atoms, repeating them in the same order
-int System::real_index(int ti){
-    if (!atoms[ti].ghost) return ti;
-    if ((real_nop == 0) || (ghost_nop % real_nop != 0)) return -1;
-    return (ti - real_nop) % real_nop;
-}
-
-//we have to test with a recursive algorithm - to match the values that is presented
-//in Grisells code.
-void System::harvest_cluster(const int ti, const int clusterindex, const double clustercutoff){
-
-    int neigh;
-    //a cutoff given for clustering leaves that of the atom as it is
-    double limit = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        neigh = real_index(atoms[ti].neighbors[i]);
-        if (neigh < 0) continue;
-        if(!atoms[neigh].condition) continue;
-        if(!(atoms[ti].neighbordist[i] <= limit)) continue;
-        if (atoms[neigh].belongsto==-1){
-            atoms[neigh].belongsto = clusterindex;
-            harvest_cluster(neigh, clusterindex, clustercutoff);
-        }
-    }
-}
-
-void System::find_clusters_recursive(double clustercutoff){
-
-    int clusterindex;
-    clusterindex = 0;
-
-    //reset belongsto indices
-    for(int ti=0; ti<real_nop;ti++){
-        atoms[ti].belongsto = -1;
-    }
-
-    for (int ti= 0;ti<real_nop;ti++){
-        if (!atoms[ti].condition) continue;
-        if (atoms[ti].ghost) continue;
-        if (atoms[ti].belongsto==-1){
-            clusterindex += 1;
-            atoms[ti].belongsto = clusterindex;
-            harvest_cluster(ti, clusterindex, clustercutoff);
-        }
-
-    }
-}
-
-
-
-int System::largest_cluster(){
-
-        int *freq = new int[nop];
-        for(int ti=0;ti<real_nop;ti++){
-            freq[ti] = 0;
-        }
-
-        for (int ti= 0;ti<real_nop;ti++)
-        {
-            if (atoms[ti].belongsto==-1) continue;
-            freq[atoms[ti].belongsto-1]++;
-        }
-
-        int max=0;
-        //no cluster has this id; atoms outside of all clusters belong to -1
-        maxclusterid = 0;
-        for (int ti= 0;ti<real_nop;ti++)
-        {
-            if (freq[ti]>max){
-                max=freq[ti];
-                maxclusterid = ti+1;
-            }
-
-        }
-
-        delete[] freq;
-        get_largest_cluster_atoms();
-
-        return max;
-}
-
-void System::get_largest_cluster_atoms(){
-        for(int ti=0; ti<real_nop; ti++){
-            atoms[ti].issurface = 1;
-            atoms[ti].lcluster = 0;
-            //if its in same cluster as max cluster assign it as one
-            if(atoms[ti].belongsto == maxclusterid){
-                atoms[ti].lcluster = 1;
-            }
-           //if its solid- identfy if it has liquid
-            if(atoms[ti].issolid == 1){
-                atoms[ti].issurface = 0;
-                for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
-                    int neigh = real_index(atoms[ti].neighbors[tj]);
-                    if (neigh < 0) continue;
-                    if(atoms[neigh].issolid == 0){
-                        atoms[ti].issurface = 1;
-                        break;
-                    }
-                }
-            }
-        }
-}
-
-void System::set_nucsize_parameters(double n1, double n2, double n3 ) { minfrenkel = n1; threshold = n2; avgthreshold = n3; }
-
-//-----------------------------------------------------
-// Voronoi based methods
-//-----------------------------------------------------
-void System::set_face_cutoff(double fcut){
-    face_cutoff = fcut;
-}
-
-//overloaded function; would be called
-//if neighbor method voronoi is selected.
-void System::get_all_neighbors_voronoi(){
-
-    //reset voronoi flag
-    voronoiused = 1;
-
-    double d;
-    double diffx,diffy,diffz;
-    double r,theta,phi;
-    int i;
-    int ti,id,tnx,tny,tnz, nverts;
-
-    double rx,ry,rz,tsum, fa, x, y, z, vol;
-    vector<int> neigh,f_vert, vert_nos;
-    vector<double> facearea, v, faceperimeters;
-    voronoicell_neighbor c;
-    vector< vector<double> > nweights;
-    vector< vector<int> > nneighs;
-    vector<int> idss;
-    //vector<int> nvector;
-    double weightsum;
-    vector <double> pos;
-
-    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
-    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
-    for(int i=0; i<nop; i++){
-        pos = atoms[i].gx();
-        pos = remap_atom(pos);
-        pcon.put(i, pos[0], pos[1], pos[2]);
-    }
-    pcon.guess_optimal(tnx,tny,tnz);
-    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
-    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
-    pcon.setup(con);
-
-    c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
-            ti=cl.pid();
-            c.face_areas(facearea);
-            c.neighbors(neigh);
-            c.face_orders(f_vert);
-            c.face_vertices(vert_nos);
-            c.vertices(x,y,z,v);
-            c.face_perimeters(faceperimeters);
-
-            vol = c.volume();
-            tsum = 0;
-            vector <double> dummyweights;
-            vector <int> dummyneighs;
-
-            //only loop over neighbors
-            weightsum = 0.0;
-            for (int i=0; i<facearea.size(); i++){
-                weightsum += pow(facearea[i], alpha);
-            }
-
-
-            //assign to nvector
-            atoms[ti].volume = vol;
-            atoms[ti].vertex_vectors = v;
-            atoms[ti].vertex_numbers = vert_nos;
-            atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
-            
-            //clean up and add vertex positions
-            nverts = int(v.size())/3;
-            pos = atoms[ti].gx();
-            atoms[ti].vertex_positions.clear();
-            for(int si=0; si<nverts; si++){
-                vector<double> temp;
-                int li=0;
-                for(int vi=si*3; vi<(si*3+3); vi++){
-                    temp.emplace_back(v[vi]+pos[li]);
-                    li++;
-                }
-                atoms[ti].vertex_positions.emplace_back(temp);
-            }
-
-            //assign to the atom
-            //atoms[ti].vorovector = nvector;
-
-            //only loop over neighbors
-            //weightsum = 0.0;
-            //for (int i=0; i<facearea.size(); i++){
-            //    weightsum += facearea[i];
-            //}
-            for (int tj=0; tj<neigh.size(); tj++){
-
-                //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
-                    continue;
-                }
-                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
-                    continue;
-                }
-                //faces can be left out by the filter, so neighbors are counted on their own
-                int nn = atoms[ti].n_neighbors;
-                atoms[ti].neighbors[nn] = neigh[tj];
-                atoms[ti].n_neighbors += 1;
-                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
-                atoms[ti].neighbordist[nn] = d;
-                //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[nn] = f_vert[tj];
-                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
-                atoms[ti].n_diffx[nn] = diffx;
-                atoms[ti].n_diffy[nn] = diffy;
-                atoms[ti].n_diffz[nn] = diffz;
-                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
-                atoms[ti].n_r[nn] = r;
-                atoms[ti].n_phi[nn] = phi;
-                atoms[ti].n_theta[nn] = theta;
-
-            }
-
-    } while (cl.inc());
-
-
-    //now calculate the averged volume
-    find_average_volume();
-
-
-}
-
-
-void System::find_average_volume(){
-    double vv;
-    int nn;
-
-    for (int ti= 0;ti<nop;ti++){
-        nn = atoms[ti].n_neighbors;
-        vv = atoms[ti].volume;
-        for (int ci = 0;ci<nn;ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].volume;
-        }
-        vv = vv/(double(nn+1));
-        atoms[ti].avgvolume = vv;
-    }
-}
-
-//-------------------------------------------------------
-// CNA parameters
-//-------------------------------------------------------
-void System::get_diamond_neighbors(){
-    /*
-    Get the neighbors in diamond lattice which is part of the
-    underlying fcc cell.
-
-    Also store the first and second nearest neighbors for
-    latest identification.
-    */
-    reset_main_neighbors();
-    for (int ti=0; ti<nop; ti++){
-        //cout<<"ti = "<<ti<<endl;
-        //start loop
-        for(int j=0 ; j<4; j++){
-            int tj = atoms[ti].temp_neighbors[j].index;
-            //cout<<"tj = "<<tj<<endl;
-            //loop over the neighbors
-            atoms[ti].nn1[j] = tj;
-            for(int k=0 ; k<4; k++){
-                int tk = atoms[tj].temp_neighbors[k].index;
-                //cout<<"tk = "<<tk<<endl;
-                //now make sure its not the same atom
-                if (ti == tk) continue;
-                //process the neighbors
-                process_neighbor(ti, tk);
-            }
-        }
-    }
-}
-
-void System::get_cna_neighbors(int style){
-    /*
-    Get neighbors for CNA method
-    There are two styles available:
-    
-    Style 1: For FCC like structures (HCP/ICO)
-    Style 2: For BCC structure    
-    */
-    int finished = 1;
-    reset_main_neighbors();
-    double factor, dist;
-    int ncount;
-
-    if (style == 1){
-        factor = 0.854;
-        ncount = 12;
-    }
-    else if (style == 2){
-        factor = 1.207;
-        ncount = 14;
-    }
-
-    for (int ti=0; ti<nop; ti++){
-        atoms[ti].cutoff = factor*lattice_constant;
-        for(int i=0 ; i<ncount; i++){
-            int tj = atoms[ti].temp_neighbors[i].index;
-            //dist = atoms[ti].temp_neighbors[i].dist;
-            //if (dist <= atoms[ti].cutoff)
-            process_neighbor(ti, tj);
-        }
-    }
-}
-
-void System::get_acna_neighbors(int style){
-    /*
-    A new neighbor algorithm that finds a specified number of 
-    neighbors for each atom.
-    There are two styles available:
-    
-    Style 1: For FCC like structures (HCP/ICO)
-    Style 2: For BCC structure
-    */
-
-    double dist;
-
-    //reset neighbors
-    reset_main_neighbors();
-
-    if (style == 1){ 
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 11){
-                double ssum = 0;
-                for(int i=0 ; i<12; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                //process sum
-                atoms[ti].cutoff = 1.207*ssum/12.00;
-                //now assign neighbors based on this
-                for(int i=0 ; i<12; i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    dist = atoms[ti].temp_neighbors[i].dist;
-                    //if (dist <= atoms[ti].cutoff)
-                    process_neighbor(ti, tj);
-                }                                 
-            }
-        }
-    }
-    else if (style == 2){
-        for (int ti=0; ti<nop; ti++){
-            if (atoms[ti].temp_neighbors.size() > 13){
-                double ssum = 0;
-                for(int i=0 ; i<8; i++){
-                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
-                }
-                for(int i=8 ; i<14; i++){
-                    ssum += atoms[ti].temp_neighbors[i].dist;
-                }
-                atoms[ti].cutoff = 1.207*ssum/14.00;
-                //now assign neighbors based on this
-                for(int i=0 ; i<14; i++){
-                    int tj = atoms[ti].temp_neighbors[i].index;
-                    dist = atoms[ti].temp_neighbors[i].dist;
-                    //if (dist <= atoms[ti].cutoff)
-                    process_neighbor(ti, tj);
-                }                                 
-            }
-        }
-    }
-}
-
-void System::get_common_neighbors(int ti){
-    /*
-    Get common neighbors between an atom and its neighbors
-    */
-    int m, n;
-    double d, dx, dy, dz;
-
-    //we have to rest a couple of things first
-    //cna vector
-    //also common array
-    atoms[ti].cna.clear();
-    atoms[ti].cna.resize(atoms[ti].n_neighbors);
-    atoms[ti].common.clear();
-    atoms[ti].common.resize(atoms[ti].n_neighbors);
-
-    for(int i=0; i<atoms[ti].n_neighbors; i++){
-        for(int j=0; j<4; j++){
-            atoms[ti].cna[i].emplace_back(0);
-        }
-    }
-    
-    //now start loop
-    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
-        m = atoms[ti].neighbors[i];
-        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
-            n = atoms[ti].neighbors[j];
-            //bonds are those between the neighbors as seen from the atom. In a narrow
-            //box other images of the two neighbors could be closer
-            dx = atoms[ti].n_diffx[i] - atoms[ti].n_diffx[j];
-            dy = atoms[ti].n_diffy[i] - atoms[ti].n_diffy[j];
-            dz = atoms[ti].n_diffz[i] - atoms[ti].n_diffz[j];
-            d = sqrt(dx*dx + dy*dy + dz*dz);
-            if (d <= atoms[ti].cutoff){
-                atoms[ti].cna[i][0]++;
-                atoms[ti].common[i].emplace_back(n);
-                atoms[ti].cna[j][0]++;
-                atoms[ti].common[j].emplace_back(m);
-            }
-        }
-    }
-}
-
-
-void System::get_common_bonds(int ti){
-    /*
-    Last two steps for CNA analysis
-    */
-    int c1, c2, maxbonds, minbonds;
-    double d, dx, dy, dz;
-
-    //first we clear the bonds array
-    atoms[ti].bonds.clear();
-    atoms[ti].bonds.resize(atoms[ti].n_neighbors);
-
-    //start loop
-    for(int k=0; k<atoms[ti].n_neighbors; k++){
-        //clear bonds first
-        for(int l=0; l<atoms[ti].cna[k][0]; l++){
-            atoms[ti].bonds[k].emplace_back(0);
-        }
-        //now start proper loop
-        for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
-            for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
-                c1 = atoms[ti].common[k][l];
-                c2 = atoms[ti].common[k][m];
-                int n1 = 0, n2 = 0;
-                //positions of the two in the list of neighbors
-                while(atoms[ti].neighbors[n1] != c1) n1++;
-                while(atoms[ti].neighbors[n2] != c2) n2++;
-                dx = atoms[ti].n_diffx[n1] - atoms[ti].n_diffx[n2];
-                dy = atoms[ti].n_diffy[n1] - atoms[ti].n_diffy[n2];
-                dz = atoms[ti].n_diffz[n1] - atoms[ti].n_diffz[n2];
-                d = sqrt(dx*dx + dy*dy + dz*dz);
-                if(d <= atoms[ti].cutoff){
-                    atoms[ti].cna[k][1]++;
-                    atoms[ti].bonds[k][l]++;
-                    atoms[ti].bonds[k][m]++;
-                }
-            }
-        }
-        maxbonds = 0;
-        minbonds = 8;
-        for(int l=0; l<atoms[ti].cna[k][0]; l++){
-            maxbonds = max(atoms[ti].bonds[k][l], maxbonds);
-            minbonds = min(atoms[ti].bonds[k][l], minbonds);
-        }
-        atoms[ti].cna[k][2] = maxbonds;
-        atoms[ti].cna[k][3] = minbonds;    
-    }
-}
-
-void System::identify_cn12(){
-
-    int c1, c2, c3, c4;
-    int nfcc, nhcp, nico;
-
-    //now we start
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure==0){
-            get_common_neighbors(ti);
-            get_common_bonds(ti);
-
-            //now assign structure if possible
-            nfcc = 0;
-            nhcp = 0;
-            nico = 0;
-            for(int k=0; k<atoms[ti].n_neighbors; k++){
-                c1 = atoms[ti].cna[k][0];
-                c2 = atoms[ti].cna[k][1];
-                c3 = atoms[ti].cna[k][2];
-                c4 = atoms[ti].cna[k][3];
-
-                if((c1==4) && (c2==2) && (c3==1) && (c4==1)){
-                    nfcc++;
-                }
-                else if ((c1==4) && (c2==2) && (c3==2) && (c4==0)){
-                    nhcp++;
-                }
-                else if ((c1==5) && (c2==5) && (c3==2) && (c4==2)){
-                    nico++;
-                }
-
-            }
-            if(nfcc==12){
-                atoms[ti].structure = 1;
-            }
-            else if((nfcc==6) && (nhcp==6)){
-                atoms[ti].structure = 2;   
-            }
-            else if (nico==12){
-                atoms[ti].structure = 4;   
-            }
-        }
-    }
-}
-
-void System::identify_cn14(){
-    
-    int c1, c2, c3, c4;
-    int nbcc1, nbcc2;
-
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure==0){
-            get_common_neighbors(ti);
-            get_common_bonds(ti);
-
-            //now assign structure if possible
-            nbcc1 = 0;
-            nbcc2 = 0;
-            for(int k=0; k<atoms[ti].n_neighbors; k++){
-                c1 = atoms[ti].cna[k][0];
-                c2 = atoms[ti].cna[k][1];
-                c3 = atoms[ti].cna[k][2];
-                c4 = atoms[ti].cna[k][3];
-
-                if((c1==4) && (c2==4) && (c3==2) && (c4==2)){
-                    nbcc1++;
-                }
-                else if ((c1==6) && (c2==6) && (c3==2) && (c4==2)){
-                    nbcc2++;
-                }
-            }
-            if((nbcc1==6) && (nbcc2==8)){
-                atoms[ti].structure = 3;   
-            }
-        }
-    }    
-}
-
-vector<int> System::identify_diamond_structure(){
-    /*
-    Calculate diamond structure
-
-    Assign structure numbers
-    ------------------------
-    5 : Cubic diamond (CD)
-    6 : 1NN of CD
-    7 : 2NN of CD
-    8 : Hexagonal diamond (HD)
-    9 : 1NN of HD
-    10: 2NN of HD
-    */
-    //first get lump neighbors
-    vector<int> analyis;
-    for(int i=0; i<11; i++){
-        analyis.emplace_back(0);
-    }
-
-
-    for(int i=0; i<nop; i++){
-        atoms[i].structure = 0;
-    }
-
-    identify_cndia();
-    //gather results
-    for(int ti=0; ti<real_nop; ti++){
-        analyis[atoms[ti].structure] += 1;
-    }
-
-    return analyis;
-
-}
-
-void System::identify_cndia(){
-    /*
-    Identify diamond structure
-
-    Assign structure numbers
-    ------------------------
-    5 : Cubic diamond (CD)
-    6 : 1NN of CD
-    7 : 2NN of CD
-    8 : Hexagonal diamond (HD)
-    9 : 1NN of HD
-    10: 2NN of HD
-    */
-    //now get diamond neighbors
-    get_diamond_neighbors();
-
-    //calculate cutoffs
-    for (int ti=0; ti<nop; ti++){
-        if (atoms[ti].n_neighbors > 11){
-            double ssum = 0;
-            for(int i=0 ; i<12; i++){
-                ssum += atoms[ti].neighbordist[i];
-            }
-            //process sum
-            atoms[ti].cutoff = 1.207*ssum/12.00;
-            //now assign neighbors based on this
-        }
-    }
-
-    //now calculate cna signature for each atom and assign
-    //structures - but only check 12 signature
-    identify_cn12();
-    int n;
-    //now for each atom
-    for(int ti=0; ti<nop; ti++){
-        if(atoms[ti].structure == 1){
-            atoms[ti].structure = 5;
-        }
-        else if(atoms[ti].structure == 2){
-            atoms[ti].structure = 8;
-        }
-    }
-    //second pass
-    for(int ti=0; ti<nop; ti++){
-        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8)){
-            for(int i=0; i<4; i++){
-                n = atoms[ti].nn1[i];
-                if(atoms[n].structure == 5){
-                    atoms[ti].structure = 6;
-                    break;
-                }
-                else if (atoms[n].structure == 8){
-                    atoms[ti].structure = 9;
-                    break;
-                }
-            }
-        }
-    }
-
-    for(int ti=0; ti<nop; ti++){
-        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8) && (atoms[ti].structure != 6) && (atoms[ti].structure != 9)){
-            for(int i=0; i<atoms[ti].n_neighbors; i++){
-                n = atoms[ti].neighbors[i];
-                if(atoms[n].structure == 5){
-                    atoms[ti].structure = 7;
-                    break;
-                }
-                else if (atoms[n].structure == 8){
-                    atoms[ti].structure = 10;
-                    break;
-                }
-            }
-        }
-    }
-}
-
-vector<int> System::calculate_cna(int method){
-    /*
-    Calculate CNA or ACNA
-    
-    Args
-    ----
-    method : 1 if CNA
-             2 if ACNA
-    */
-
-    //create array for result
-    vector<int> analyis;
-    for(int i=0; i<5; i++){
-        analyis.emplace_back(0);
-    }
-
-    //assign structures to 0
-    for(int i=0; i<nop; i++){
-        atoms[i].structure = 0;
-    }
-    
-    //first get lump neighbors
-    //neighbor method is same
-    //look further if the guessed distance did not yield enough candidates
-    double prefactor = 3;
-    int found = get_all_neighbors_bynumber(prefactor, 14, 0);
-    for(int i=0; (i<20) && (!found); i++){
-        prefactor *= 2;
-        found = get_all_neighbors_bynumber(prefactor, 14, 0);
-    }
-    if (!found)
-        throw runtime_error("Could not find enough neighbors for common neighbor analysis");
-
-    //first we start by checking for 12 CN 
-    //CNA method
-    if(method==1){
-        get_cna_neighbors(1);
-    }
-    //ACNA method
-    else if (method==2){
-        get_acna_neighbors(1);
-    }
-
-    //call here
-    identify_cn12();
-
-    //now we start by checking for 14 CN 
-    //CNA method
-    if(method==1){
-        get_cna_neighbors(2);
-    }
-    //ACNA method
-    else if (method==2){
-        get_acna_neighbors(2);
-    }
-
-    //call here
-    identify_cn14();
-
-    //gather results
-    for(int ti=0; ti<real_nop; ti++){
-        analyis[atoms[ti].structure] += 1;
-    }
-
-    return analyis;
-}
-//-------------------------------------------------------
-// Other order parameters
-//-------------------------------------------------------
-
-//Methods for entropy
-double System::switching_fn(double rij, double ra, int M, int N){
-
-    double num = 1.0 - pow((rij/ra), N);
-    double denum = 1.0 - pow((rij/ra), M);
-    return num/denum;
-}
-
-void System::average_entropy(){
-    double entsum;
-    for(int i=0; i<nop; i++){
-        entsum = atoms[i].entropy;
-        for(int j=0; j<atoms[i].n_neighbors; j++){
-            entsum += atoms[atoms[i].neighbors[j]].entropy;
-        }
-        atoms[i].avg_entropy = entsum/(double(atoms[i].n_neighbors + 1));
-    }
-}
-
-void System::average_entropy_switch(double ra, int M, int N){
-
-    double frij;
-    double frijsum = 0.0;
-    double entfrijsum = 0.0;
-
-    for(int i=0; i<nop; i++){
-        
-        frijsum = 0.0;
-        entfrijsum = 0.0;
-
-        for(int j=0; j<atoms[i].n_neighbors; j++){
-            frij = switching_fn(atoms[i].neighbordist[j], ra, M, N);
-            frijsum += frij;
-            entfrijsum += atoms[atoms[i].neighbors[j]].entropy*frij;
-        }
-
-        atoms[i].avg_entropy = (entfrijsum + atoms[i].entropy)/(frijsum + 1.0);
-    }
-}
-
-
-void System::entropy(double sigma, double rho, double rstart, double rstop, double h, double kb){
-
-    for(int i=0; i<nop; i++){
-        
-        atoms[i].sigma = sigma;
-        //a density of zero asks for the local density of each atom
-        if (rho == 0){
-            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
-        }
-        else{
-            atoms[i].rho = rho;
-        }
-        atoms[i].rstart = rstart;
-        atoms[i].rstop = rstop;
-        atoms[i].h = h;
-        atoms[i].kb = kb;
-
-        atoms[i].trapezoid_integration();
-    }
-}
-
-
-void System::calculate_centrosymmetry_atom(int ti, int nmax){
-    /*
-    Calculate centrosymmetry parameter
-    */
-    //loop over neighbors
-    
-    double d, dx, dy, dz, weight;
-    int t1, t2;
-    vector<datom> temp;
-    int count = 0;
-
-    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
-        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
-            //now get dist vectors
-            dx = atoms[ti].n_diffx[i] + atoms[ti].n_diffx[j];
-            dy = atoms[ti].n_diffy[i] + atoms[ti].n_diffy[j];
-            dz = atoms[ti].n_diffz[i] + atoms[ti].n_diffz[j];
-            weight = sqrt(dx*dx+dy*dy+dz*dz);
-            datom x = {weight, count};
-            temp.emplace_back(x);
-            count++;            
-        }
-    }
-
-    //now sort
-    sort(temp.begin(), temp.end(), by_dist());
-
-    //now do the second loop
-    double csym = 0;
-
-    for(int i=0; i<nmax/2; i++){
-        csym += temp[i].dist*temp[i].dist;
-    }
-
-    atoms[ti].centrosymmetry = csym;
-}
-
-void System::calculate_centrosymmetry(int nmax){
-
-    reset_all_neighbors();
-    //the type filter of an earlier neighbor search does not apply here
-    filter = 0;
-    //look further if the guessed distance did not yield enough candidates
-    double prefactor = 3;
-    int found = get_all_neighbors_bynumber(prefactor, nmax, 1);
-    for(int i=0; (i<20) && (!found); i++){
-        prefactor *= 2;
-        reset_all_neighbors();
-        found = get_all_neighbors_bynumber(prefactor, nmax, 1);
-    }
-    if (!found)
-        throw runtime_error("Could not find enough neighbors for centrosymmetry");
-
-    //now loop over atoms and call
-    for(int ti=0; ti<nop; ti++){
-        calculate_centrosymmetry_atom(ti, nmax);
-    }
-}
-
-vector<double> System::get_centrosymmetry(){
-
-    vector<double> csm;
-    for (int i=0; i<real_nop; i++){
-        csm.emplace_back(atoms[i].centrosymmetry);
-    }
-    return csm;
-}
+#include "system.h"
+#include <iostream>
+#include <iomanip>
+#include <algorithm>
+#include <stdio.h>
+#include "voro++.hh"
+#include "string.h"
+#include <chrono>
+#include <pybind11/stl.h>
+
+using namespace voro;
+
+//-----------------------------------------------------
+// Constructor, Destructor and Access functions
+//-----------------------------------------------------
+System::System(){
+
+    nop = 0;
+    ghost_nop = 0;
+    real_nop = 0;
+    triclinic = 0;
+    usecells = 0;
+    filter = 0;
+    maxclusterid = -1;
+    
+    alpha = 1;
+    voronoiused = 0;
+    solidq = 6;
+    criteria = 0;
+    comparecriteria = 0;
+    
+    neighbordistance = 0;
+    cells = NULL;
+
+    //set box with zeros
+    for(int i=0; i<3; i++){
+        for(int j=0; j<3; j++){
+            box[i][j] = 0.0;
+        }
+    }
+
+}
+
+System::~System(){
+}
+
+//-----------------------------------------------------
+// Simulation box related methods
+//-----------------------------------------------------
+void System::assign_triclinic_params(vector<vector<double>> drot, vector<vector<double>> drotinv){
+
+    for(int i=0; i<3; i++){
+        for(int j=0; j<3; j++){
+            rot[i][j] = drot[i][j];
+            rotinv[i][j] = drotinv[i][j];
+        }
+    }
+
+    triclinic = 1;
+}
+
+vector<vector<double>> System::get_triclinic_params(){
+
+    vector<vector<double>> drot;
+    vector<double> dummydrot;
+    for(int i=0; i<3; i++){
+        dummydrot.clear();
+        for(int j=0; j<3; j++){
+            dummydrot.emplace_back(rot[i][j]);
+        }
+        drot.emplace_back(dummydrot);
+    }
+    return drot;
+}
+
+void System::sbox(vector<vector <double>> boxd) {
+
+    //this method will be redone to get a 3x3 box
+    //always. They will be then translated to the
+    //corresponding other boxes
+    double isum;
+
+    for(int i=0; i<3; i++){
+        isum = 0;
+        for(int j=0; j<3; j++){
+            box[i][j] = boxd[i][j];
+            isum += boxd[i][j]*boxd[i][j];
+        }
+        boxdims[i][0] = 0;
+        boxdims[i][1] = sqrt(isum);
+
+    }
+
+    boxx = boxdims[0][1] - boxdims[0][0];
+    boxy = boxdims[1][1] - boxdims[1][0];
+    boxz = boxdims[2][1] - boxdims[2][0];
+}
+
+vector<vector<double>> System::gbox(){
+    vector<vector<double>> qres;
+    vector<double> qd;
+
+    for(int i=0;i<3;i++){
+        qd.clear();
+        for(int j=0;j<3;j++){
+            qd.emplace_back(box[i][j]);
+        }
+        qres.emplace_back(qd);
+    }
+    return qres;
+}
+
+
+//-----------------------------------------------------
+// Atom related methods
+//-----------------------------------------------------
+//this function allows for handling custom formats of atoms and so on
+void System::set_atoms( vector<Atom> atomitos){
+
+    atoms.clear();
+    nop = atomitos.size();
+    atoms.reserve(nop);
+    atoms.assign(atomitos.begin(), atomitos.end());
+
+    //now assign ghost and real atoms
+    int tg = 0;
+    int tl = 0;
+
+    for(int i=0; i<nop; i++){
+        //set_atom puts an atom back to this place
+        atoms[i].loc = i;
+        if(atoms[i].ghost==0){
+            tl++;
+        }
+        else{
+            tg++;
+        }
+    }
+
+    ghost_nop = tg;
+    real_nop = tl;
+    //cout<<"Assigned real "<<tl<<" ghost "<<tg<<endl;
+    //cout<<nop<<endl;
+
+}
+
+
+//this function allows for handling custom formats of atoms and so on
+vector<Atom> System::get_atoms( ){
+    //here, we have to filter ghost atoms
+    vector<Atom> retatoms;
+    for(int i=0; i<real_nop; i++){
+        retatoms.emplace_back(atoms[i]);
+    }
+    return retatoms;
+
+}
+
+void System::add_atoms(vector<Atom> atomitos){
+
+    
+
+    //check for ghost atoms
+    int tg = 0;
+    int tl = 0;
+
+    for(int i=0; i<atomitos.size(); i++){
+        if(atomitos[i].ghost==0){
+            tl++;
+        }
+        else{
+            tg++;
+        }
+    }
+
+    //if there is are no ghosts in system and list, just add and forget
+    if(ghost_nop==0){
+        if(tg==0){
+            for (int i=0; i<atomitos.size(); i++){
+                atoms.emplace_back(atomitos[i]);
+            }            
+        }
+    }
+    else if (ghost_nop>0){
+        //now the atoms need to be reordered
+        vector<Atom> real_atoms;
+        vector<Atom> ghost_atoms;        
+        
+        for(int i=0; i<nop; i++){
+            if(atoms[i].ghost==0){
+                real_atoms.emplace_back(atoms[i]);
+            }
+            else{
+                ghost_atoms.emplace_back(atoms[i]);
+            }
+        }
+        //now also add new atoms to the list
+        for (int i=0; i<atomitos.size(); i++){
+            if(atomitos[i].ghost==0){
+                real_atoms.emplace_back(atomitos[i]);
+            }
+            else{
+                ghost_atoms.emplace_back(atomitos[i]);
+            }            
+        }
+        //now put them all in the big list
+        atoms.clear();
+
+        for(int i=0; i<real_atoms.size(); i++){
+            atoms.emplace_back(real_atoms[i]);
+        }
+        for(int i=0; i<ghost_atoms.size(); i++){
+            atoms.emplace_back(ghost_atoms[i]);
+        }
+
+        //we can clear now
+        real_atoms.clear();
+        ghost_atoms.clear();
+    }
+
+    //update 
+    ghost_nop = ghost_nop + tg;
+    real_nop = real_nop + tl;
+    nop = nop + atomitos.size();
+
+    for(int i=0; i<atoms.size(); i++){
+        atoms[i].loc = i;
+    }
+}
+
+
+vector<Atom> System::get_all_atoms( ){
+    //here, we have to filter ghost atoms
+    vector<Atom> retatoms;
+    for(int i=0; i<nop; i++){
+        retatoms.emplace_back(atoms[i]);
+    }
+    return retatoms;
+
+}
+
+Atom System::gatom(int i) {
+    if ((i < 0) || (i >= nop))
+        throw out_of_range("there is no atom at this index");
+    return atoms[i];
+}
+void System::satom(Atom atom1) {
+    int idd = atom1.loc;
+    if ((idd < 0) || (idd >= nop))
+        throw out_of_range("there is no atom at this index");
+    atoms[idd] = atom1;
+}
+
+//----------------------------------------------------
+// Neighbor methods
+//----------------------------------------------------
+
+double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
+
+    double abs, ax, ay, az;
+    diffx = atoms[tj].posx - atoms[ti].posx;
+    diffy = atoms[tj].posy - atoms[ti].posy;
+    diffz = atoms[tj].posz - atoms[ti].posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+        //finally distance
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+
+    }
+    else{
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+    }
+    return abs;
+}
+
+//function for binding
+double System::get_abs_distance(Atom atom1 , Atom atom2 ){
+
+    double abs, ax, ay, az;
+    double diffx = atom1.posx - atom2.posx;
+    double diffy = atom1.posy - atom2.posy;
+    double diffz = atom1.posz - atom2.posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+        //finally distance
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+
+    }
+    else{
+
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+        abs = sqrt(diffx*diffx + diffy*diffy + diffz*diffz);
+    }
+
+    return abs;
+}
+
+//function for binding
+vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
+
+    double ax, ay, az;
+    double diffx = atom1.posx - atom2.posx;
+    double diffy = atom1.posy - atom2.posy;
+    double diffz = atom1.posz - atom2.posz;
+
+    if (triclinic == 1){
+
+        //convert to the triclinic system
+        ax = rotinv[0][0]*diffx + rotinv[0][1]*diffy + rotinv[0][2]*diffz;
+        ay = rotinv[1][0]*diffx + rotinv[1][1]*diffy + rotinv[1][2]*diffz;
+        az = rotinv[2][0]*diffx + rotinv[2][1]*diffy + rotinv[2][2]*diffz;
+
+      double dummy;
+        //scale to match the triclinic box size
+        diffx = ax*boxx;
+        diffy = ay*boxy;
+        diffz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        diffx = diffx/boxx;
+        diffy = diffy/boxy;
+        diffz = diffz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*diffx + rot[0][1]*diffy + rot[0][2]*diffz;
+        ay = rot[1][0]*diffx + rot[1][1]*diffy + rot[1][2]*diffz;
+        az = rot[2][0]*diffx + rot[2][1]*diffy + rot[2][2]*diffz;
+
+        //now assign to diffs and calculate distnace
+        diffx = ax;
+        diffy = ay;
+        diffz = az;
+
+    }
+    else{
+
+        //nearest image
+        if (diffx> boxx/2.0) {diffx-=boxx;};
+        if (diffx<-boxx/2.0) {diffx+=boxx;};
+        if (diffy> boxy/2.0) {diffy-=boxy;};
+        if (diffy<-boxy/2.0) {diffy+=boxy;};
+        if (diffz> boxz/2.0) {diffz-=boxz;};
+        if (diffz<-boxz/2.0) {diffz+=boxz;};
+
+    }
+
+    vector<double> abs;
+    abs.emplace_back(diffx);
+    abs.emplace_back(diffy);
+    abs.emplace_back(diffz);
+
+    return abs;
+}
+
+
+void System::reset_all_neighbors(){
+    for (int ti = 0;ti<nop;ti++){
+
+        atoms[ti].n_neighbors=0;
+        atoms[ti].temp_neighbors.clear();
+        atoms[ti].condition = 0;
+
+        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
+
+            atoms[ti].neighbors[tn] = NILVALUE;
+            atoms[ti].neighbordist[tn] = -1.0;
+        }
+    }
+}
+
+void System::reset_main_neighbors(){
+    for (int ti = 0;ti<nop;ti++){
+
+        atoms[ti].n_neighbors=0;
+        atoms[ti].condition = 0;
+        //atoms[ti].temp_neighbors.clear();
+
+        for (int tn = 0;tn<MAXNUMBEROFNEIGHBORS;tn++){
+
+            atoms[ti].neighbors[tn] = NILVALUE;
+            atoms[ti].neighbordist[tn] = -1.0;
+        }
+    }
+}
+
+
+vector<double> System::get_pairdistances(){
+
+    vector<double> res;
+    double d;
+    double diffx,diffy,diffz;
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            res.emplace_back(d);
+
+        }
+    }
+    return res;
+}
+
+//function to create cell lists
+//snmall function that returns cell index when provided with cx, cy, cz
+int System::cell_index(int cx, int cy, int cz){
+    return cx*ny*nz + cy*nz + cz;
+}
+
+
+//if number of particles are small, use brute force
+//if box is triclinic, use brute force
+//with less than three cells along a direction a cell is its own neighbor more than once
+bool System::cells_possible(){
+    if (triclinic == 1) return false;
+    return ((boxx/neighbordistance >= 3) && (boxy/neighbordistance >= 3) && (boxz/neighbordistance >= 3));
+}
+
+void System::set_up_cells(){
+
+      int si,sj,sk, maincell, subcell;
+      vector<int> cc;
+      //find of all find the number of cells in each direction
+      nx = boxx/neighbordistance;
+      ny = boxy/neighbordistance;
+      nz = boxz/neighbordistance;
+      //now use this to find length of cell in each direction
+      double lx = boxx/nx;
+      double ly = boxy/ny;
+      double lz = boxz/nz;
+      //find the total number of cells
+      total_cells = nx*ny*nz;
+      //create a vector of cells
+      delete[] cells;
+      cells = new cell[total_cells];
+      //now run over and for each cell create its neighbor cells
+      //all neighbor cells are also added
+      for(int i=0; i<nx; i++){
+         for(int j=0; j<ny; j++){
+           for(int k=0; k<nz; k++){
+              maincell = cell_index(i, j, k);
+              for(int si=i-1; si<=i+1; si++){
+                  for(int sj=j-1; sj<=j+1; sj++){
+                      for(int sk=k-1; sk<=k+1; sk++){
+                         cc = cell_periodic(si, sj, sk);
+                         subcell = cell_index(cc[0], cc[1], cc[2]);
+                         //add this to the list of neighbors
+                         cells[maincell].neighbor_cells.emplace_back(subcell);
+
+                      }
+                  }
+              }
+           }
+         }
+      }
+      int cx, cy, cz;
+      double dx, dy, dz;
+      double ddx, ddy, ddz;
+      int ind;
+
+      //now loop over all atoms and assign cells
+      for(int ti=0; ti<nop; ti++){
+
+          //calculate c indices for the atom
+          dx = atoms[ti].posx;
+          dy = atoms[ti].posy;
+          dz = atoms[ti].posz;
+          
+          //now apply boxdims
+          if( abs(dx-0) < 1E-6)
+              dx = 0;
+          if( abs(dy-0) < 1E-6)
+              dy = 0;
+          if( abs(dz-0) < 1E-6)
+              dz = 0;
+
+          //atoms can be any number of boxes away from the origin
+          dx -= boxx*floor(dx/boxx);
+          dy -= boxy*floor(dy/boxy);
+          dz -= boxz*floor(dz/boxz);
+
+          //now find c vals; rounding must not lead out of the last cell
+          cx = min(int(dx/lx), nx-1);
+          cy = min(int(dy/ly), ny-1);
+          cz = min(int(dz/lz), nz-1);
+
+          //now get cell index
+          ind = cell_index(cx, cy, cz);
+          //got cell index
+          //now add the atom to the corresponding cells
+          cells[ind].members.emplace_back(ti);
+
+      }
+      //end of loop - all cells, the member atoms and neighboring cells are added
+}
+
+vector<double> System::remap_atom(vector<double> pos){
+    //remap atom position into the box
+    //now apply boxdims
+    double dx = pos[0];
+    double dy = pos[1];
+    double dz = pos[2];
+    double ax, ay, az;
+
+    if (triclinic == 1){
+        //convert to the triclinic system
+        ax = rotinv[0][0]*dx + rotinv[0][1]*dy + rotinv[0][2]*dz;
+        ay = rotinv[1][0]*dx + rotinv[1][1]*dy + rotinv[1][2]*dz;
+        az = rotinv[2][0]*dx + rotinv[2][1]*dy + rotinv[2][2]*dz;
+
+        //scale to match the triclinic box size
+        dx = ax*boxx;
+        dy = ay*boxy;
+        dz = az*boxz;
+
+        //now check pbc
+        //nearest image
+        if (dx> boxx/2.0) {dx-=boxx;};
+        if (dx<-boxx/2.0) {dx+=boxx;};
+        if (dy> boxy/2.0) {dy-=boxy;};
+        if (dy<-boxy/2.0) {dy+=boxy;};
+        if (dz> boxz/2.0) {dz-=boxz;};
+        if (dz<-boxz/2.0) {dz+=boxz;};
+
+        //now divide by box vals - scale down the size
+        dx = dx/boxx;
+        dy = dy/boxy;
+        dz = dz/boxz;
+
+        //now transform back to normal system
+        ax = rot[0][0]*dx + rot[0][1]*dy + rot[0][2]*dz;
+        ay = rot[1][0]*dx + rot[1][1]*dy + rot[1][2]*dz;
+        az = rot[2][0]*dx + rot[2][1]*dy + rot[2][2]*dz;
+
+        //now assign to diffs and calculate distnace
+        dx = ax;
+        dy = ay;
+        dz = az;
+    }
+    else{
+        if (dx < 0) dx+=boxx;
+        else if (dx >= boxx) dx-=boxx;
+        if (dy < 0) dy+=boxy;
+        else if (dy >= boxy) dy-=boxy;
+        if (dz < 0) dz+=boxz;
+        else if (dz >= boxz) dz-=boxz;
+    }
+    vector<double> rpos;
+    rpos.emplace_back(dx);
+    rpos.emplace_back(dy);
+    rpos.emplace_back(dz);
+    return rpos;
+
+}
+
+vector<int> System::cell_periodic(int i, int j, int k){
+    vector<int> ci;
+    //apply periodic conditions
+    if (i<0) i = i + nx;
+    else if (i>nx-1) i = i -nx;
+    ci.emplace_back(i);
+    if (j<0) j = j + ny;
+    else if (j>ny-1) j = j -ny;
+    ci.emplace_back(j);
+    if (k<0) k = k + nz;
+    else if (k>nz-1) k = k -nz;
+    ci.emplace_back(k);
+    return ci;
+
+}
+
+//get all neighbor info but using cell lists
+void System::get_all_neighbors_cells(){
+
+    voronoiused = 0;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int ti, tj;
+    if (!cells_possible()){
+        get_all_neighbors_normal();
+        return;
+    }
+
+    //atoms without any neighbor have a cutoff too
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
+    }
+
+    //first create cells
+    set_up_cells();
+    int maincell, subcell;
+
+    //now loop to find distance
+    for(int i=0; i<total_cells; i++){
+        //now go over the neighbor cells
+        //for each member in cell i
+        for(int mi=0; mi<cells[i].members.size(); mi++){
+            //now go through the neighbors
+            ti = cells[i].members[mi];
+            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
+               //loop through members of j
+               subcell = cells[i].neighbor_cells[j];
+               for(int mj=0; mj<cells[subcell].members.size(); mj++){
+                  //now we have mj -> members/compare with
+                  tj = cells[subcell].members[mj];
+                  //compare ti and tj and add
+                  if (ti < tj){
+                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                      if (d < neighbordistance){
+
+                        if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                            continue;
+                        }
+                        else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                            continue;
+                        }
+                        check_neighbor_space(ti);
+                        check_neighbor_space(tj);
+                        //process_neighbor(ti, tj);
+                        atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                        atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+                        //weight is set to 1.0, unless manually reset
+                        atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                        atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                        atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                        atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                        convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                        atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                        atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                        atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                        atoms[ti].n_neighbors += 1;
+                        atoms[ti].cutoff = neighbordistance;
+
+                        atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
+                        atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
+                        //weight is set to 1.0, unless manually reset
+                        atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
+                        atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
+                        atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
+                        atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
+                        convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
+                        atoms[tj].n_r[atoms[tj].n_neighbors] = r;
+                        atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
+                        atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
+                        atoms[tj].n_neighbors +=1;
+                        atoms[tj].cutoff = neighbordistance;
+                      }
+                  }
+               }
+
+            }
+
+        }
+    }
+
+
+}
+
+
+
+void System::get_all_neighbors_normal(){
+
+
+    //reset voronoi flag
+    voronoiused = 0;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = neighbordistance;
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            if (d < neighbordistance){
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
+                check_neighbor_space(ti);
+                check_neighbor_space(tj);
+                //process_neighbor(ti, tj);
+                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                atoms[ti].n_neighbors += 1;
+                atoms[ti].cutoff = neighbordistance;
+
+                atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
+                atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[tj].neighborweight[atoms[tj].n_neighbors] = 1.00;
+                atoms[tj].n_diffx[atoms[tj].n_neighbors] = -diffx;
+                atoms[tj].n_diffy[atoms[tj].n_neighbors] = -diffy;
+                atoms[tj].n_diffz[atoms[tj].n_neighbors] = -diffz;
+                convert_to_spherical_coordinates(-diffx, -diffy, -diffz, r, phi, theta);
+                atoms[tj].n_r[atoms[tj].n_neighbors] = r;
+                atoms[tj].n_phi[atoms[tj].n_neighbors] = phi;
+                atoms[tj].n_theta[atoms[tj].n_neighbors] = theta;
+                atoms[tj].n_neighbors +=1;
+                atoms[tj].cutoff = neighbordistance;
+            }
+        }
+
+    }
+
+
+}
+
+void System::check_neighbor_space(int ti){
+    /*
+    The lists of an atom have a fixed size
+     */
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS)
+        throw runtime_error("Too many neighbors - try reducing the cutoff");
+}
+
+bool System::is_filtered(int ti, int tj){
+    /*
+    Check if the type filter leaves out tj as a neighbor of ti
+     */
+    if ((filter == 1) && (atoms[ti].type != atoms[tj].type)) return true;
+    if ((filter == 2) && (atoms[ti].type == atoms[tj].type)) return true;
+    return false;
+}
+
+void System::process_neighbor(int ti, int tj){
+    /*
+    Calculate all info and add it to list
+    ti - loc of host atom
+    tj - loc of the neighbor
+     d - interatomic distance
+     */
+
+    double d, diffx, diffy, diffz;
+    double r, phi, theta;
+
+    check_neighbor_space(ti);
+    d = get_abs_distance(ti, tj, diffx,diffy,diffz);
+
+    atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+    atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
+    //weight is set to 1.0, unless manually reset
+    atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+    atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+    atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+    atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+    convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+    atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+    atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+    atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+    atoms[ti].n_neighbors += 1;
+
+}
+
+/*
+To increase the speed of the other methods, we need some functions using cells and
+otheriwse which adds atoms to the temp_neighbors list
+*/
+void System::get_temp_neighbors_brute(){
+
+    //reset voronoi flag
+
+    double d;
+    double diffx,diffy,diffz;
+
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].temp_neighbors.clear();
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        for (int tj=ti; tj<nop; tj++){
+            if(ti==tj) { continue; }
+            d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+            if (d <= neighbordistance){
+                datom x = {d, tj};
+                atoms[ti].temp_neighbors.emplace_back(x);
+                datom y = {d, ti};
+                atoms[tj].temp_neighbors.emplace_back(y);
+            }
+        }
+    }
+
+}
+
+/*
+Cells should only be used when the system has a minimum size - in this case,
+about 2000 atoms.
+*/
+void System::get_temp_neighbors_cells(){
+
+    if (!cells_possible()){
+        get_temp_neighbors_brute();
+        return;
+    }
+
+    //first create cells
+    set_up_cells();
+
+    int maincell, subcell;
+    int ti, tj;
+    double d;
+    double diffx,diffy,diffz;
+
+    for (int i=0; i<nop; i++){
+        atoms[i].temp_neighbors.clear();
+    }
+
+    //now loop to find distance
+    for(int i=0; i<total_cells; i++){
+        //now go over the neighbor cells
+        //for each member in cell i
+        for(int mi=0; mi<cells[i].members.size(); mi++){
+            //now go through the neighbors
+            ti = cells[i].members[mi];
+            for(int j=0 ; j<cells[i].neighbor_cells.size(); j++){
+               //loop through members of j
+               subcell = cells[i].neighbor_cells[j];
+               for(int mj=0; mj<cells[subcell].members.size(); mj++){
+                  //now we have mj -> members/compare with
+                  tj = cells[subcell].members[mj];
+                  //compare ti and tj and add
+                  if (ti < tj){
+                      d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                      if (d < neighbordistance){
+                        datom x = {d, tj};
+                        atoms[ti].temp_neighbors.emplace_back(x);
+                        datom y = {d, ti};
+                        atoms[tj].temp_neighbors.emplace_back(y);
+                      }
+                  }
+               }
+
+            }
+
+        }
+    }
+
+}
+int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom. But ONLY TEMP neighbors
+    */
+
+    //reset voronoi flag
+    voronoiused = 0;
+    
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+    finished = 1;
+
+    vector<int> nids;
+    vector<double> dists, sorted_dists;
+
+        //double prefactor = 1.21;
+    double summ;
+    double boxvol;
+
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+    //now find the volume per particle
+    double guessvol = fabs(boxvol)/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < nns){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        if(assign == 1){
+            //assign the closest neighbors that pass the filter
+            for(int i=0; (i<atoms[ti].temp_neighbors.size()) && (atoms[ti].n_neighbors<nns); i++){
+                int tj = atoms[ti].temp_neighbors[i].index;
+                if (is_filtered(ti, tj)) continue;
+                process_neighbor(ti, tj);
+            }
+            if (atoms[ti].n_neighbors < nns){
+                return 0;
+            }
+            atoms[ti].cutoff = atoms[ti].neighbordist[nns-1];
+        }
+
+        finished = 1;            
+    }
+
+
+    return finished;
+
+
+}
+
+void System::set_atom_cutoff(double factor){
+    /*
+    Reassign atom cutoff
+    */
+    int nn;
+    double sum;
+    double avgdist;
+
+    for (int ti=0; ti<nop; ti++){
+        nn = atoms[ti].n_neighbors;
+        sum = 0;
+        for (int j=0; j<nn; j++){
+            sum += atoms[ti].neighbordist[j];
+        }
+        avgdist = sum/(double(nn));
+        atoms[ti].cutoff = factor*avgdist;
+    }
+}
+
+int System::get_neighbors_from_temp(int style){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom.
+    */
+
+    int finished = 1;
+    //reset neighbors
+    reset_main_neighbors();
+
+    if (style == 12){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 11){
+                double ssum = 0;
+                for(int i=0 ; i<12; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                //process sum
+                atoms[ti].lcutsmall = 1.2071*ssum/12;
+                //now assign neighbors based on this
+                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    double dist = atoms[ti].temp_neighbors[i].dist;
+                    if (dist <= atoms[ti].lcutsmall)
+                        process_neighbor(ti, tj);
+                }
+                finished = 1;                                  
+            }
+            else{
+                return 0;
+            }
+        }
+    }
+    else if (style == 14){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 13){
+                double ssum = 0;
+                for(int i=0 ; i<8; i++){
+                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
+                }
+                for(int i=8 ; i<14; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                atoms[ti].lcutlarge = 1.2071*ssum/14;
+                //now assign neighbors based on this
+                for(int i=0 ; i<atoms[ti].temp_neighbors.size(); i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    double dist = atoms[ti].temp_neighbors[i].dist;
+                    if (dist <= atoms[ti].lcutlarge)
+                        process_neighbor(ti, tj);
+                }
+                finished = 1;                                  
+            }
+            else{
+                return 0;
+            }
+        }
+    }
+
+
+    return finished;
+
+
+}
+
+
+void System::store_neighbor_info(){
+    /*
+    Method to assign neighbors and next nearest neighbors
+
+    */    
+    int nn;
+
+    for (int ti=0; ti<nop; ti++){
+
+        atoms[ti].next_neighbors.clear();
+        atoms[ti].next_neighbor_distances.clear();
+        atoms[ti].next_neighbor_counts.clear();
+        
+        atoms[ti].next_neighbors.resize(atoms[ti].n_neighbors);
+        atoms[ti].next_neighbor_distances.resize(atoms[ti].n_neighbors);
+        atoms[ti].next_neighbor_counts.resize(atoms[ti].n_neighbors);
+
+        for(int i=0; i<atoms[ti].n_neighbors; i++){
+            nn = atoms[ti].neighbors[i];
+            atoms[ti].next_neighbor_counts[i] = atoms[nn].n_neighbors;
+            for(int j=0; j<atoms[nn].n_neighbors; j++){
+                atoms[ti].next_neighbors[i].emplace_back(atoms[nn].neighbors[j]);
+                atoms[ti].next_neighbor_distances[i].emplace_back(atoms[nn].neighbordist[j]);
+            }
+        }
+    }
+}
+
+
+
+
+int System::get_all_neighbors_sann(double prefactor){
+    /*
+    A new adaptive algorithm. Similar to the old ones, we guess a basic distance with padding,
+    and sort them up.
+    After that, we use the algorithm by in J. Chem. Phys. 136, 234107 (2012) to find the list of
+    neighbors.
+     */
+
+    //reset voronoi flag
+    voronoiused = 0;
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+    finished = 1;
+
+    vector<int> nids;
+    vector<double> dists, sorted_dists;
+
+    //double prefactor = 1.21;
+    double summ;
+    double boxvol;
+
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+
+    //now find the volume per particle
+    double guessvol = fabs(boxvol)/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 3){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        //start with initial routine
+        m = 3;
+        summ = 0;
+        for(int i=0 ; i<m; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+            int tj = atoms[ti].temp_neighbors[i].index;
+            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
+        }
+
+        //find cutoff
+        dcut = summ/float(m-2);
+        atoms[ti].cutoff = dcut;
+        maxneighs = atoms[ti].temp_neighbors.size();
+
+        while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
+            //increase m
+            m = m+1;
+            //all candidates are used up, there is nothing beyond the last one
+            if (m == maxneighs) break;
+
+            //here now we can add this to the list neighbors and process things
+            int tj = atoms[ti].temp_neighbors[m].index;
+            if (!is_filtered(ti, tj)) process_neighbor(ti, tj);
+
+            //find new dcut
+            summ = summ + atoms[ti].temp_neighbors[m].dist;
+            dcut = summ/float(m-2);
+            atoms[ti].cutoff = dcut;
+        }
+
+        //find if there was an error
+        if (m==maxneighs){
+            finished = 0;
+            break;
+        }
+        else{
+            finished = 1;
+        }
+
+    }
+
+
+    return finished;
+
+
+}
+
+
+
+int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
+
+    //reset voronoi flag
+    voronoiused = 0;
+
+    double d, dcut;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int m, maxneighs, finished;
+
+    double summ;
+    double boxvol;
+    //some guesswork here
+    //find the box volumes
+    if (triclinic==1){
+        double a1, a2, a3, b1, b2, b3, c1, c2, c3;
+        //rot is the cell vectors transposed
+        a1 = rot[0][0];
+        a2 = rot[1][0];
+        a3 = rot[2][0];
+        b1 = rot[0][1];
+        b2 = rot[1][1];
+        b3 = rot[2][1];
+        c1 = rot[0][2];
+        c2 = rot[1][2];
+        c3 = rot[2][2];
+        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+    }
+    else{
+        boxvol = boxx*boxy*boxz;
+    }
+
+    //now find the volume per particle
+    double guessvol = fabs(boxvol)/float(nop);
+
+    //guess the side of a cube that is occupied by an atom - this is a guess distance
+    double guessdist = cbrt(guessvol);
+
+    //now add some safe padding - this is the prefactor which we will read in
+    guessdist = prefactor*guessdist;
+    neighbordistance = guessdist;
+
+    //introduce cell lists here - instead of looping over all neighbors
+    //use cells
+
+    if (usecells){
+        get_temp_neighbors_cells();
+    }
+    else{
+        get_temp_neighbors_brute();
+    }
+
+    //end of callstructural competition
+    //subatoms would now be populated
+    //now starts the main loop
+    for (int ti=0; ti<nop; ti++){
+        //check if its zero size
+        if (atoms[ti].temp_neighbors.size() < nlimit){
+            return 0;
+        }
+
+        sort(atoms[ti].temp_neighbors.begin(), atoms[ti].temp_neighbors.end(), by_dist());
+
+        summ = 0;
+        for(int i=0; i<nlimit; i++){
+            summ += atoms[ti].temp_neighbors[i].dist;
+        }
+        dcut = padding*(1.0/float(nlimit))*summ;
+
+        //candidates are only known up to the guessed distance
+        if (dcut > neighbordistance){
+            return 0;
+        }
+
+        atoms[ti].cutoff = dcut;
+        //now we are ready to loop over again, but over the lists
+        for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
+            int tj = atoms[ti].temp_neighbors[j].index;
+            if (atoms[ti].temp_neighbors[j].dist < dcut){
+
+                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                    continue;
+                }
+                check_neighbor_space(ti);
+                d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
+                atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[atoms[ti].n_neighbors] = 1.00;
+                atoms[ti].n_diffx[atoms[ti].n_neighbors] = diffx;
+                atoms[ti].n_diffy[atoms[ti].n_neighbors] = diffy;
+                atoms[ti].n_diffz[atoms[ti].n_neighbors] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[atoms[ti].n_neighbors] = r;
+                atoms[ti].n_phi[atoms[ti].n_neighbors] = phi;
+                atoms[ti].n_theta[atoms[ti].n_neighbors] = theta;
+                atoms[ti].n_neighbors += 1;
+                atoms[ti].cutoff = dcut;
+
+            }
+        }
+
+    }
+
+
+    return 1;
+
+}
+
+void System::set_neighbordistance(double nn) { neighbordistance = nn; }
+
+
+//---------------------------------------------------
+// Methods for q calculation
+//---------------------------------------------------
+double System::dfactorial(int l,int m){
+
+    double fac = 1.00;
+    for(int i=0;i<2*m;i++){
+        fac*=double(l+m-i);
+    }
+    return (1.00/fac);
+}
+
+void System::set_reqd_qs(vector <int> qs){
+
+    lenqs = qs.size();
+    reqdqs = new int[lenqs];
+    for(int i=0;i<lenqs;i++){
+        reqdqs[i] = qs[i];
+    }
+
+    rq_backup = qs;
+}
+
+
+void System::set_reqd_aqs(vector <int> qs){
+
+    lenaqs = qs.size();
+    reqdaqs = new int[lenaqs];
+    for(int i=0;i<lenaqs;i++){
+        for(int j=0;j<lenqs;j++){
+            if(qs[i]==reqdqs[j]) { reqdaqs[i] = qs[i]; }
+        }
+    }
+    //only qvlaues in the normal set will be included in the aq list
+    //check here if its in the qlist
+    //cout<<"corresponding q value should also be set."<<endl;
+
+}
+
+double System::PLM(int l, int m, double x){
+
+    double fact,pll,pmm,pmmp1,somx2;
+    int i,ll;
+    pll = 0.0;
+    if (m < 0 || m > l || fabs(x) > 1.0)
+        cerr << "impossible combination of l and m" << "\n";
+    pmm=1.0;
+    if (m > 0){
+        somx2=sqrt((1.0-x)*(1.0+x));
+        fact=1.0;
+        for (i=1;i<=m;i++){
+            pmm *= -fact*somx2;
+            fact += 2.0;
+        }
+    }
+
+    if (l == m)
+        return pmm;
+    else{
+        pmmp1=x*(2*m+1)*pmm;
+        if (l == (m+1))
+            return pmmp1;
+        else{
+            for (ll=m+2;ll<=l;ll++){
+            pll=(x*(2*ll-1)*pmmp1-(ll+m-1)*pmm)/(ll-m);
+            pmm=pmmp1;
+            pmmp1=pll;
+            }
+        return pll;
+        }
+    }
+}
+
+void System::convert_to_spherical_coordinates(double x, double y, double z, double &r, double &phi, double &theta){
+    r = sqrt(x*x+y*y+z*z);
+    theta = acos(z/r);
+    phi = atan2(y,x);
+}
+
+
+void System::YLM(int l, int m, double theta, double phi, double &realYLM, double &imgYLM){
+
+    double factor;
+    double m_PLM;
+    m_PLM = PLM(l,m,cos(theta));
+    factor = ((2.0*double(l) + 1.0)/ (4.0*PI))*dfactorial(l,m);
+    realYLM = sqrt(factor) * m_PLM * cos(double(m)*phi);
+    imgYLM  = sqrt(factor) * m_PLM * sin(double(m)*phi);
+}
+
+
+void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &imgYLM ){
+
+    realYLM = 0.0;
+    imgYLM = 0.0;
+    if (m < 0) {
+        YLM(l, abs(m), theta, phi, realYLM, imgYLM);
+        realYLM = pow(-1.0,m)*realYLM;
+        //complex conjugate of the one with positive m
+        imgYLM = -pow(-1.0,m)*imgYLM;
+    }
+    else{
+        YLM(l, m, theta, phi, realYLM, imgYLM);
+    }
+}
+
+void System::calculate_complexQLM_6(){
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    double realYLM,imgYLM;
+
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+        for (int mi = -6;mi < 7;mi++){
+
+            realti = 0.0;
+            imgti = 0.0;
+            for (int ci = 0;ci<nn;ci++){
+
+                QLM(6,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
+                realti += atoms[ti].neighborweight[ci]*realYLM;
+                imgti += atoms[ti].neighborweight[ci]*imgYLM;
+            }
+
+            realti = realti/(double(nn));
+            imgti = imgti/(double(nn));
+            atoms[ti].realq[4][mi+6] = realti;
+            atoms[ti].imgq[4][mi+6] = imgti;
+        }
+    }
+}
+
+//calculation of any complex qval
+void System::calculate_q(vector <int> qs){
+
+    //set_reqd_qs(qs);
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    double realYLM,imgYLM;
+    int q;
+    double summ;
+
+    //first make space in atoms for the number of qs needed - assign with null values
+    /*
+    for(int ti=0;ti<nop;ti++){
+        for(int tj=0;tj<11;tj++){
+
+            atoms[ti].q[tj] = -1;
+            atoms[ti].aq[tj] = -1;
+            for(int tk=0;tk<25;tk++){
+                atoms[ti].realq[tj][tk] = 0;
+                atoms[ti].imgq[tj][tk] = 0;
+                atoms[ti].arealq[tj][tk] = 0;
+                atoms[ti].aimgq[tj][tk] = 0;
+            }
+        }
+    }
+    */
+
+    //note that the qvals will be in -2 pos
+    //q2 will be in q0 pos and so on
+    double weightsum;
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+        //for(int tq=0;tq<lenqs;tq++){
+        for(int tq=0;tq<qs.size();tq++){
+            //find which q?
+            q = qs[tq];
+            //cout<<q<<endl;
+            summ = 0;
+            for (int mi = -q;mi < q+1;mi++){
+                realti = 0.0;
+                imgti = 0.0;
+                weightsum = 0;
+                for (int ci = 0;ci<nn;ci++){
+                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue;
+                    QLM(q,mi,atoms[ti].n_theta[ci],atoms[ti].n_phi[ci],realYLM, imgYLM);
+                    realti += atoms[ti].neighborweight[ci]*realYLM;
+                    imgti += atoms[ti].neighborweight[ci]*imgYLM;
+                    weightsum += atoms[ti].neighborweight[ci];
+                }
+
+            //the weights are not normalised,
+            if(!voronoiused){
+                realti = realti/float(weightsum);
+                imgti = imgti/float(weightsum);
+            }
+
+
+            atoms[ti].realq[q-2][mi+q] = realti;
+            atoms[ti].imgq[q-2][mi+q] = imgti;
+
+            summ+= realti*realti + imgti*imgti;
+            //summ+= realti;
+            }
+            //normalise summ
+            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
+            atoms[ti].q[q-2] = summ;
+
+        }
+
+    }
+
+}
+
+
+//calculation of any complex aqvalb
+void System::calculate_aq(vector <int> qs){
+
+    //nn = number of neighbors
+    int nn;
+    double realti,imgti;
+    //double realYLM,imgYLM;
+    int q;
+    double summ;
+    int nns;
+
+    //if (!qsfound) { calculate_q(qs); }
+    //note that the qvals will be in -2 pos
+    //q2 will be in q0 pos and so on
+
+    // nop = parameter.nop;
+    for (int ti= 0;ti<nop;ti++){
+
+        nn = atoms[ti].n_neighbors;
+
+        for(int tq=0;tq<qs.size();tq++){
+            //find which q?
+            q = qs[tq];
+            //cout<<q<<endl;
+            summ = 0;
+            for (int mi = 0;mi < 2*q+1;mi++){
+                realti = atoms[ti].realq[q-2][mi];
+                imgti = atoms[ti].imgq[q-2][mi];
+                nns = 0;
+                for (int ci = 0;ci<nn;ci++){
+                    if (atoms[ti].condition != atoms[atoms[ti].neighbors[ci]].condition) continue; 
+                    realti += atoms[atoms[ti].neighbors[ci]].realq[q-2][mi];
+                    imgti += atoms[atoms[ti].neighbors[ci]].imgq[q-2][mi];
+                    nns += 1;
+                }
+
+            //realti = realti/weightsum;
+            //imgti = realti/weightsum;
+
+            realti = realti/(double(nns+1));
+            imgti = imgti/(double(nns+1));
+
+            atoms[ti].arealq[q-2][mi] = realti;
+            atoms[ti].aimgq[q-2][mi] = imgti;
+
+            summ+= realti*realti + imgti*imgti;
+            }
+            //normalise summ
+            summ = pow(((4.0*PI/(2*q+1)) * summ),0.5);
+            atoms[ti].aq[q-2] = summ;
+
+        }
+
+    }
+}
+
+vector<double> System::gqvals(int qq){
+    vector<double> qres;
+    qres.reserve(real_nop);
+    for(int i=0;i<real_nop;i++){
+        qres.emplace_back(atoms[i].q[qq-2]);
+    }
+
+    return qres;
+}
+
+vector<double> System::gaqvals(int qq){
+    vector<double> qres;
+    qres.reserve(real_nop);
+    for(int i=0;i<real_nop;i++){
+        qres.emplace_back(atoms[i].aq[qq-2]);
+    }
+
+    return qres;
+}
+
+void System::calculate_disorder(){
+
+    //for disorder we need sjj which is dot product with itself, self dot prouct of neighbors
+    //and cross dot product
+    double sumSquareti;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    double dis;
+
+    for(int ti=0; ti<nop; ti++){
+
+        sumSquareti = 0.0;
+        realdotproduct = 0.0;
+        imgdotproduct = 0.0;
+
+        for (int mi = 0;mi < 2*solidq+1 ;mi++){
+            sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+            realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi];
+            imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+        }
+        connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquareti)*sqrt(sumSquareti));
+        atoms[ti].sii = connection;
+
+    }
+
+    //first round is over
+    //now find cross terms
+    for(int ti=0; ti<nop; ti++){
+
+        dis = 0;
+
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            connection = get_number_from_bond(ti, tj);
+            dis += (atoms[ti].sii + atoms[tj].sii - 2*connection);
+        }
+        atoms[ti].disorder = dis/float(atoms[ti].n_neighbors);
+
+    }
+}
+
+void System::find_average_disorder(){
+    double vv;
+    int nn;
+
+    for (int ti= 0;ti<nop;ti++){
+        nn = atoms[ti].n_neighbors;
+        vv = atoms[ti].disorder;
+        for (int ci = 0; ci<nn; ci++){
+            vv += atoms[atoms[ti].neighbors[ci]].disorder;
+        }
+        vv = vv/(double(nn+1));
+        atoms[ti].avgdisorder = vv;
+    }
+}
+//-----------------------------------------------------
+// Solids and Clustering methods
+//-----------------------------------------------------
+//also has to be overloaded - could be a useful function
+double System::get_number_from_bond(int ti,int tj){
+
+    double sumSquareti,sumSquaretj;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    sumSquareti = 0.0;
+    sumSquaretj = 0.0;
+    realdotproduct = 0.0;
+    imgdotproduct = 0.0;
+
+    for (int mi = 0;mi < 2*solidq+1 ;mi++){
+
+        sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
+        sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+        realdotproduct += atoms[ti].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi];
+        imgdotproduct  += atoms[ti].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
+    }
+
+    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+    //cout<<connection<<endl;
+    return connection;
+}
+
+//overloaded version
+double System::get_number_from_bond(Atom atom1,Atom atom2){
+
+    double sumSquareti,sumSquaretj;
+    double realdotproduct,imgdotproduct;
+    double connection;
+    sumSquareti = 0.0;
+    sumSquaretj = 0.0;
+    realdotproduct = 0.0;
+    imgdotproduct = 0.0;
+
+    for (int mi = 0;mi < 2*solidq+1 ;mi++){
+
+        sumSquareti += atom1.realq[solidq-2][mi]*atom1.realq[solidq-2][mi] + atom1.imgq[solidq-2][mi] *atom1.imgq[solidq-2][mi];
+        sumSquaretj += atom2.realq[solidq-2][mi]*atom2.realq[solidq-2][mi] + atom2.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
+        realdotproduct += atom1.realq[solidq-2][mi]*atom2.realq[solidq-2][mi];
+        imgdotproduct  += atom1.imgq[solidq-2][mi] *atom2.imgq[solidq-2][mi];
+    }
+
+    connection = (realdotproduct+imgdotproduct)/(sqrt(sumSquaretj)*sqrt(sumSquareti));
+    return connection;
+}
+
+void System::calculate_frenkel_numbers(){
+
+    int frenkelcons;
+    double scalar;
+
+    for (int ti= 0;ti<nop;ti++){
+
+        frenkelcons = 0;
+        atoms[ti].avq6q6 = 0.0;
+        for (int c = 0;c<atoms[ti].n_neighbors;c++){
+
+            scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
+            atoms[ti].sij[c] = scalar;
+            if (comparecriteria == 0){
+                if (scalar > threshold) frenkelcons += 1;
+            }
+            else{
+                if (scalar < threshold) frenkelcons += 1;
+            }
+
+            atoms[ti].avq6q6 += scalar;
+        }
+
+        atoms[ti].frenkelnumber = frenkelcons;
+        atoms[ti].avq6q6 /= atoms[ti].n_neighbors;
+
+    }
+}
+
+
+void System::find_solid_atoms(){
+
+    int tfrac;
+    if (criteria == 0){
+        for (int ti= 0;ti<nop;ti++){
+          if (comparecriteria == 0)
+            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 > avgthreshold) );
+          else
+            atoms[ti].issolid = ( (atoms[ti].frenkelnumber > minfrenkel) && (atoms[ti].avq6q6 < avgthreshold) );
+        }
+    }
+    else if (criteria == 1){
+        for (int ti= 0;ti<nop;ti++){
+            tfrac = ((atoms[ti].frenkelnumber/double(atoms[ti].n_neighbors)) > minfrenkel);
+            if (comparecriteria == 0)
+                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 > avgthreshold));
+            else
+                atoms[ti].issolid = (tfrac && (atoms[ti].avq6q6 < avgthreshold));
+        }
+    }
+
+}
+
+
+void System::find_clusters(double clustercutoff){
+        //Clustering methods should only run over real atoms
+        if (clustercutoff != 0){
+          for(int ti=0; ti<real_nop;ti++){
+              atoms[ti].cutoff = clustercutoff;
+          }
+        }
+        for(int ti=0; ti<real_nop;ti++){
+            atoms[ti].belongsto = -1;
+        }
+
+        for (int ti= 0;ti<real_nop;ti++){
+
+            if (!atoms[ti].condition) continue;
+            if (atoms[ti].ghost) continue;
+
+            if (atoms[ti].belongsto==-1) {atoms[ti].belongsto = atoms[ti].id; }
+            for (int c = 0;c<atoms[ti].n_neighbors;c++){
+
+                if(!atoms[atoms[ti].neighbors[c]].condition) continue;
+                if(!(atoms[ti].neighbordist[atoms[ti].neighbors[c]] <= atoms[ti].cutoff)) continue;
+                if (atoms[atoms[ti].neighbors[c]].ghost) continue;
+                if (atoms[atoms[ti].neighbors[c]].belongsto==-1){
+                    atoms[atoms[ti].neighbors[c]].belongsto = atoms[ti].belongsto;
+                }
+                else{
+                    atoms[ti].belongsto = atoms[atoms[ti].neighbors[c]].belongsto;
+                }
+            }
+        }
+}
+
+//location of the atom of which ti is an image; images follow the
+//real atoms, repeating them in the same order
+int System::real_index(int ti){
+    if (!atoms[ti].ghost) return ti;
+    if ((real_nop == 0) || (ghost_nop % real_nop != 0)) return -1;
+    return (ti - real_nop) % real_nop;
+}
+
+//we have to test with a recursive algorithm - to match the values that is presented
+//in Grisells code.
+void System::harvest_cluster(const int ti, const int clusterindex, const double clustercutoff){
+
+    int neigh;
+    //a cutoff given for clustering leaves that of the atom as it is
+    double limit = (clustercutoff != 0) ? clustercutoff : atoms[ti].cutoff;
+    for(int i=0; i<atoms[ti].n_neighbors; i++){
+        neigh = real_index(atoms[ti].neighbors[i]);
+        if (neigh < 0) continue;
+        if(!atoms[neigh].condition) continue;
+        if(!(atoms[ti].neighbordist[i] <= limit)) continue;
+        if (atoms[neigh].belongsto==-1){
+            atoms[neigh].belongsto = clusterindex;
+            harvest_cluster(neigh, clusterindex, clustercutoff);
+        }
+    }
+}
+
+void System::find_clusters_recursive(double clustercutoff){
+
+    int clusterindex;
+    clusterindex = 0;
+
+    //reset belongsto indices
+    for(int ti=0; ti<real_nop;ti++){
+        atoms[ti].belongsto = -1;
+    }
+
+    for (int ti= 0;ti<real_nop;ti++){
+        if (!atoms[ti].condition) continue;
+        if (atoms[ti].ghost) continue;
+        if (atoms[ti].belongsto==-1){
+            clusterindex += 1;
+            atoms[ti].belongsto = clusterindex;
+            harvest_cluster(ti, clusterindex, clustercutoff);
+        }
+
+    }
+}
+
+
+
+int System::largest_cluster(){
+
+        int *freq = new int[nop];
+        for(int ti=0;ti<real_nop;ti++){
+            freq[ti] = 0;
+        }
+
+        for (int ti= 0;ti<real_nop;ti++)
+        {
+            if (atoms[ti].belongsto==-1) continue;
+            freq[atoms[ti].belongsto-1]++;
+        }
+
+        int max=0;
+        //no cluster has this id; atoms outside of all clusters belong to -1
+        maxclusterid = 0;
+        for (int ti= 0;ti<real_nop;ti++)
+        {
+            if (freq[ti]>max){
+                max=freq[ti];
+                maxclusterid = ti+1;
+            }
+
+        }
+
+        delete[] freq;
+        get_largest_cluster_atoms();
+
+        return max;
+}
+
+void System::get_largest_cluster_atoms(){
+        for(int ti=0; ti<real_nop; ti++){
+            atoms[ti].issurface = 1;
+            atoms[ti].lcluster = 0;
+            //if its in same cluster as max cluster assign it as one
+            if(atoms[ti].belongsto == maxclusterid){
+                atoms[ti].lcluster = 1;
+            }
+           //if its solid- identfy if it has liquid
+            if(atoms[ti].issolid == 1){
+                atoms[ti].issurface = 0;
+                for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+                    int neigh = real_index(atoms[ti].neighbors[tj]);
+                    if (neigh < 0) continue;
+                    if(atoms[neigh].issolid == 0){
+                        atoms[ti].issurface = 1;
+                        break;
+                    }
+                }
+            }
+        }
+}
+
+void System::set_nucsize_parameters(double n1, double n2, double n3 ) { minfrenkel = n1; threshold = n2; avgthreshold = n3; }
+
+//-----------------------------------------------------
+// Voronoi based methods
+//-----------------------------------------------------
+void System::set_face_cutoff(double fcut){
+    face_cutoff = fcut;
+}
+
+//overloaded function; would be called
+//if neighbor method voronoi is selected.
+void System::get_all_neighbors_voronoi(){
+
+    //reset voronoi flag
+    voronoiused = 1;
+
+    double d;
+    double diffx,diffy,diffz;
+    double r,theta,phi;
+    int i;
+    int ti,id,tnx,tny,tnz, nverts;
+
+    double rx,ry,rz,tsum, fa, x, y, z, vol;
+    vector<int> neigh,f_vert, vert_nos;
+    vector<double> facearea, v, faceperimeters;
+    voronoicell_neighbor c;
+    vector< vector<double> > nweights;
+    vector< vector<int> > nneighs;
+    vector<int> idss;
+    //vector<int> nvector;
+    double weightsum;
+    vector <double> pos;
+
+    //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
+    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
+    for(int i=0; i<nop; i++){
+        pos = atoms[i].gx();
+        pos = remap_atom(pos);
+        pcon.put(i, pos[0], pos[1], pos[2]);
+    }
+    pcon.guess_optimal(tnx,tny,tnz);
+    //container con(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],tnx,tny,tnz,true,true,true, nop);
+    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
+    pcon.setup(con);
+
+    c_loop_all cl(con);
+    if (cl.start()) do if(con.compute_cell(c,cl)) {
+            ti=cl.pid();
+            c.face_areas(facearea);
+            c.neighbors(neigh);
+            c.face_orders(f_vert);
+            c.face_vertices(vert_nos);
+            c.vertices(x,y,z,v);
+            c.face_perimeters(faceperimeters);
+
+            vol = c.volume();
+            tsum = 0;
+            vector <double> dummyweights;
+            vector <int> dummyneighs;
+
+            //only loop over neighbors
+            weightsum = 0.0;
+            for (int i=0; i<facearea.size(); i++){
+                weightsum += pow(facearea[i], alpha);
+            }
+
+
+            //assign to nvector
+            atoms[ti].volume = vol;
+            atoms[ti].vertex_vectors = v;
+            atoms[ti].vertex_numbers = vert_nos;
+            atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
+            
+            //clean up and add vertex positions
+            nverts = int(v.size())/3;
+            pos = atoms[ti].gx();
+            atoms[ti].vertex_positions.clear();
+            for(int si=0; si<nverts; si++){
+                vector<double> temp;
+                int li=0;
+                for(int vi=si*3; vi<(si*3+3); vi++){
+                    temp.emplace_back(v[vi]+pos[li]);
+                    li++;
+                }
+                atoms[ti].vertex_positions.emplace_back(temp);
+            }
+
+            //assign to the atom
+            //atoms[ti].vorovector = nvector;
+
+            //only loop over neighbors
+            //weightsum = 0.0;
+            //for (int i=0; i<facearea.size(); i++){
+            //    weightsum += facearea[i];
+            //}
+            for (int tj=0; tj<neigh.size(); tj++){
+
+                //if filter doesnt work continue
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
+                    continue;
+                }
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
+                    continue;
+                }
+                //faces can be left out by the filter, so neighbors are counted on their own
+                int nn = atoms[ti].n_neighbors;
+                atoms[ti].neighbors[nn] = neigh[tj];
+                atoms[ti].n_neighbors += 1;
+                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
+                atoms[ti].neighbordist[nn] = d;
+                //weight is set to 1.0, unless manually reset
+                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
+                atoms[ti].facevertices[nn] = f_vert[tj];
+                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
+                atoms[ti].n_diffx[nn] = diffx;
+                atoms[ti].n_diffy[nn] = diffy;
+                atoms[ti].n_diffz[nn] = diffz;
+                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
+                atoms[ti].n_r[nn] = r;
+                atoms[ti].n_phi[nn] = phi;
+                atoms[ti].n_theta[nn] = theta;
+
+            }
+
+    } while (cl.inc());
+
+
+    //now calculate the averged volume
+    find_average_volume();
+
+
+}
+
+
+void System::find_average_volume(){
+    double vv;
+    int nn;
+
+    for (int ti= 0;ti<nop;ti++){
+        nn = atoms[ti].n_neighbors;
+        vv = atoms[ti].volume;
+        for (int ci = 0;ci<nn;ci++){
+            vv += atoms[atoms[ti].neighbors[ci]].volume;
+        }
+        vv = vv/(double(nn+1));
+        atoms[ti].avgvolume = vv;
+    }
+}
+
+//-------------------------------------------------------
+// CNA parameters
+//-------------------------------------------------------
+void System::get_diamond_neighbors(){
+    /*
+    Get the neighbors in diamond lattice which is part of the
+    underlying fcc cell.
+
+    Also store the first and second nearest neighbors for
+    latest identification.
+    */
+    reset_main_neighbors();
+    for (int ti=0; ti<nop; ti++){
+        //cout<<"ti = "<<ti<<endl;
+        //start loop
+        for(int j=0 ; j<4; j++){
+            int tj = atoms[ti].temp_neighbors[j].index;
+            //cout<<"tj = "<<tj<<endl;
+            //loop over the neighbors
+            atoms[ti].nn1[j] = tj;
+            for(int k=0 ; k<4; k++){
+                int tk = atoms[tj].temp_neighbors[k].index;
+                //cout<<"tk = "<<tk<<endl;
+                //now make sure its not the same atom
+                if (ti == tk) continue;
+                //process the neighbors
+                process_neighbor(ti, tk);
+            }
+        }
+    }
+}
+
+void System::get_cna_neighbors(int style){
+    /*
+    Get neighbors for CNA method
+    There are two styles available:
+    
+    Style 1: For FCC like structures (HCP/ICO)
+    Style 2: For BCC structure    
+    */
+    int finished = 1;
+    reset_main_neighbors();
+    double factor, dist;
+    int ncount;
+
+    if (style == 1){
+        factor = 0.854;
+        ncount = 12;
+    }
+    else if (style == 2){
+        factor = 1.207;
+        ncount = 14;
+    }
+
+    for (int ti=0; ti<nop; ti++){
+        atoms[ti].cutoff = factor*lattice_constant;
+        for(int i=0 ; i<ncount; i++){
+            int tj = atoms[ti].temp_neighbors[i].index;
+            //dist = atoms[ti].temp_neighbors[i].dist;
+            //if (dist <= atoms[ti].cutoff)
+            process_neighbor(ti, tj);
+        }
+    }
+}
+
+void System::get_acna_neighbors(int style){
+    /*
+    A new neighbor algorithm that finds a specified number of 
+    neighbors for each atom.
+    There are two styles available:
+    
+    Style 1: For FCC like structures (HCP/ICO)
+    Style 2: For BCC structure
+    */
+
+    double dist;
+
+    //reset neighbors
+    reset_main_neighbors();
+
+    if (style == 1){ 
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 11){
+                double ssum = 0;
+                for(int i=0 ; i<12; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                //process sum
+                atoms[ti].cutoff = 1.207*ssum/12.00;
+                //now assign neighbors based on this
+                for(int i=0 ; i<12; i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    dist = atoms[ti].temp_neighbors[i].dist;
+                    //if (dist <= atoms[ti].cutoff)
+                    process_neighbor(ti, tj);
+                }                                 
+            }
+        }
+    }
+    else if (style == 2){
+        for (int ti=0; ti<nop; ti++){
+            if (atoms[ti].temp_neighbors.size() > 13){
+                double ssum = 0;
+                for(int i=0 ; i<8; i++){
+                    ssum += 1.1547*atoms[ti].temp_neighbors[i].dist;
+                }
+                for(int i=8 ; i<14; i++){
+                    ssum += atoms[ti].temp_neighbors[i].dist;
+                }
+                atoms[ti].cutoff = 1.207*ssum/14.00;
+                //now assign neighbors based on this
+                for(int i=0 ; i<14; i++){
+                    int tj = atoms[ti].temp_neighbors[i].index;
+                    dist = atoms[ti].temp_neighbors[i].dist;
+                    //if (dist <= atoms[ti].cutoff)
+                    process_neighbor(ti, tj);
+                }                                 
+            }
+        }
+    }
+}
+
+void System::get_common_neighbors(int ti){
+    /*
+    Get common neighbors between an atom and its neighbors
+    */
+    int m, n;
+    double d, dx, dy, dz;
+
+    //we have to rest a couple of things first
+    //cna vector
+    //also common array
+    atoms[ti].cna.clear();
+    atoms[ti].cna.resize(atoms[ti].n_neighbors);
+    atoms[ti].common.clear();
+    atoms[ti].common.resize(atoms[ti].n_neighbors);
+
+    for(int i=0; i<atoms[ti].n_neighbors; i++){
+        for(int j=0; j<4; j++){
+            atoms[ti].cna[i].emplace_back(0);
+        }
+    }
+    
+    //now start loop
+    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
+        m = atoms[ti].neighbors[i];
+        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
+            n = atoms[ti].neighbors[j];
+            //bonds are those between the neighbors as seen from the atom. In a narrow
+            //box other images of the two neighbors could be closer
+            dx = atoms[ti].n_diffx[i] - atoms[ti].n_diffx[j];
+            dy = atoms[ti].n_diffy[i] - atoms[ti].n_diffy[j];
+            dz = atoms[ti].n_diffz[i] - atoms[ti].n_diffz[j];
+            d = sqrt(dx*dx + dy*dy + dz*dz);
+            if (d <= atoms[ti].cutoff){
+                atoms[ti].cna[i][0]++;
+                atoms[ti].common[i].emplace_back(n);
+                atoms[ti].cna[j][0]++;
+                atoms[ti].common[j].emplace_back(m);
+            }
+        }
+    }
+}
+
+
+void System::get_common_bonds(int ti){
+    /*
+    Last two steps for CNA analysis
+    */
+    int c1, c2, maxbonds, minbonds;
+    double d, dx, dy, dz;
+
+    //first we clear the bonds array
+    atoms[ti].bonds.clear();
+    atoms[ti].bonds.resize(atoms[ti].n_neighbors);
+
+    //start loop
+    for(int k=0; k<atoms[ti].n_neighbors; k++){
+        //clear bonds first
+        for(int l=0; l<atoms[ti].cna[k][0]; l++){
+            atoms[ti].bonds[k].emplace_back(0);
+        }
+        //now start proper loop
+        for(int l=0; l<atoms[ti].cna[k][0]-1; l++){
+            for(int m=l+1; m<atoms[ti].cna[k][0]; m++){
+                c1 = atoms[ti].common[k][l];
+                c2 = atoms[ti].common[k][m];
+                int n1 = 0, n2 = 0;
+                //positions of the two in the list of neighbors
+                while(atoms[ti].neighbors[n1] != c1) n1++;
+                while(atoms[ti].neighbors[n2] != c2) n2++;
+                dx = atoms[ti].n_diffx[n1] - atoms[ti].n_diffx[n2];
+                dy = atoms[ti].n_diffy[n1] - atoms[ti].n_diffy[n2];
+                dz = atoms[ti].n_diffz[n1] - atoms[ti].n_diffz[n2];
+                d = sqrt(dx*dx + dy*dy + dz*dz);
+                if(d <= atoms[ti].cutoff){
+                    atoms[ti].cna[k][1]++;
+                    atoms[ti].bonds[k][l]++;
+                    atoms[ti].bonds[k][m]++;
+                }
+            }
+        }
+        maxbonds = 0;
+        minbonds = 8;
+        for(int l=0; l<atoms[ti].cna[k][0]; l++){
+            maxbonds = max(atoms[ti].bonds[k][l], maxbonds);
+            minbonds = min(atoms[ti].bonds[k][l], minbonds);
+        }
+        atoms[ti].cna[k][2] = maxbonds;
+        atoms[ti].cna[k][3] = minbonds;    
+    }
+}
+
+void System::identify_cn12(){
+
+    int c1, c2, c3, c4;
+    int nfcc, nhcp, nico;
+
+    //now we start
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure==0){
+            get_common_neighbors(ti);
+            get_common_bonds(ti);
+
+            //now assign structure if possible
+            nfcc = 0;
+            nhcp = 0;
+            nico = 0;
+            for(int k=0; k<atoms[ti].n_neighbors; k++){
+                c1 = atoms[ti].cna[k][0];
+                c2 = atoms[ti].cna[k][1];
+                c3 = atoms[ti].cna[k][2];
+                c4 = atoms[ti].cna[k][3];
+
+                if((c1==4) && (c2==2) && (c3==1) && (c4==1)){
+                    nfcc++;
+                }
+                else if ((c1==4) && (c2==2) && (c3==2) && (c4==0)){
+                    nhcp++;
+                }
+                else if ((c1==5) && (c2==5) && (c3==2) && (c4==2)){
+                    nico++;
+                }
+
+            }
+            if(nfcc==12){
+                atoms[ti].structure = 1;
+            }
+            else if((nfcc==6) && (nhcp==6)){
+                atoms[ti].structure = 2;   
+            }
+            else if (nico==12){
+                atoms[ti].structure = 4;   
+            }
+        }
+    }
+}
+
+void System::identify_cn14(){
+    
+    int c1, c2, c3, c4;
+    int nbcc1, nbcc2;
+
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure==0){
+            get_common_neighbors(ti);
+            get_common_bonds(ti);
+
+            //now assign structure if possible
+            nbcc1 = 0;
+            nbcc2 = 0;
+            for(int k=0; k<atoms[ti].n_neighbors; k++){
+                c1 = atoms[ti].cna[k][0];
+                c2 = atoms[ti].cna[k][1];
+                c3 = atoms[ti].cna[k][2];
+                c4 = atoms[ti].cna[k][3];
+
+                if((c1==4) && (c2==4) && (c3==2) && (c4==2)){
+                    nbcc1++;
+                }
+                else if ((c1==6) && (c2==6) && (c3==2) && (c4==2)){
+                    nbcc2++;
+                }
+            }
+            if((nbcc1==6) && (nbcc2==8)){
+                atoms[ti].structure = 3;   
+            }
+        }
+    }    
+}
+
+vector<int> System::identify_diamond_structure(){
+    /*
+    Calculate diamond structure
+
+    Assign structure numbers
+    ------------------------
+    5 : Cubic diamond (CD)
+    6 : 1NN of CD
+    7 : 2NN of CD
+    8 : Hexagonal diamond (HD)
+    9 : 1NN of HD
+    10: 2NN of HD
+    */
+    //first get lump neighbors
+    vector<int> analyis;
+    for(int i=0; i<11; i++){
+        analyis.emplace_back(0);
+    }
+
+
+    for(int i=0; i<nop; i++){
+        atoms[i].structure = 0;
+    }
+
+    identify_cndia();
+    //gather results
+    for(int ti=0; ti<real_nop; ti++){
+        analyis[atoms[ti].structure] += 1;
+    }
+
+    return analyis;
+
+}
+
+void System::identify_cndia(){
+    /*
+    Identify diamond structure
+
+    Assign structure numbers
+    ------------------------
+    5 : Cubic diamond (CD)
+    6 : 1NN of CD
+    7 : 2NN of CD
+    8 : Hexagonal diamond (HD)
+    9 : 1NN of HD
+    10: 2NN of HD
+    */
+    //now get diamond neighbors
+    get_diamond_neighbors();
+
+    //calculate cutoffs
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].n_neighbors > 11){
+            double ssum = 0;
+            for(int i=0 ; i<12; i++){
+                ssum += atoms[ti].neighbordist[i];
+            }
+            //process sum
+            atoms[ti].cutoff = 1.207*ssum/12.00;
+            //now assign neighbors based on this
+        }
+    }
+
+    //now calculate cna signature for each atom and assign
+    //structures - but only check 12 signature
+    identify_cn12();
+    int n;
+    //now for each atom
+    for(int ti=0; ti<nop; ti++){
+        if(atoms[ti].structure == 1){
+            atoms[ti].structure = 5;
+        }
+        else if(atoms[ti].structure == 2){
+            atoms[ti].structure = 8;
+        }
+    }
+    //second pass
+    for(int ti=0; ti<nop; ti++){
+        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8)){
+            for(int i=0; i<4; i++){
+                n = atoms[ti].nn1[i];
+                if(atoms[n].structure == 5){
+                    atoms[ti].structure = 6;
+                    break;
+                }
+                else if (atoms[n].structure == 8){
+                    atoms[ti].structure = 9;
+                    break;
+                }
+            }
+        }
+    }
+
+    for(int ti=0; ti<nop; ti++){
+        if ((atoms[ti].structure != 5) && (atoms[ti].structure != 8) && (atoms[ti].structure != 6) && (atoms[ti].structure != 9)){
+            for(int i=0; i<atoms[ti].n_neighbors; i++){
+                n = atoms[ti].neighbors[i];
+                if(atoms[n].structure == 5){
+                    atoms[ti].structure = 7;
+                    break;
+                }
+                else if (atoms[n].structure == 8){
+                    atoms[ti].structure = 10;
+                    break;
+                }
+            }
+        }
+    }
+}
+
+vector<int> System::calculate_cna(int method){
+    /*
+    Calculate CNA or ACNA
+    
+    Args
+    ----
+    method : 1 if CNA
+             2 if ACNA
+    */
+
+    //create array for result
+    vector<int> analyis;
+    for(int i=0; i<5; i++){
+        analyis.emplace_back(0);
+    }
+
+    //assign structures to 0
+    for(int i=0; i<nop; i++){
+        atoms[i].structure = 0;
+    }
+    
+    //first get lump neighbors
+    //neighbor method is same
+    //look further if the guessed distance did not yield enough candidates
+    double prefactor = 3;
+    int found = get_all_neighbors_bynumber(prefactor, 14, 0);
+    for(int i=0; (i<20) && (!found); i++){
+        prefactor *= 2;
+        found = get_all_neighbors_bynumber(prefactor, 14, 0);
+    }
+    if (!found)
+        throw runtime_error("Could not find enough neighbors for common neighbor analysis");
+
+    //first we start by checking for 12 CN 
+    //CNA method
+    if(method==1){
+        get_cna_neighbors(1);
+    }
+    //ACNA method
+    else if (method==2){
+        get_acna_neighbors(1);
+    }
+
+    //call here
+    identify_cn12();
+
+    //now we start by checking for 14 CN 
+    //CNA method
+    if(method==1){
+        get_cna_neighbors(2);
+    }
+    //ACNA method
+    else if (method==2){
+        get_acna_neighbors(2);
+    }
+
+    //call here
+    identify_cn14();
+
+    //gather results
+    for(int ti=0; ti<real_nop; ti++){
+        analyis[atoms[ti].structure] += 1;
+    }
+
+    return analyis;
+}
+//-------------------------------------------------------
+// Other order parameters
+//-------------------------------------------------------
+
+//Methods for entropy
+double System::switching_fn(double rij, double ra, int M, int N){
+
+    double num = 1.0 - pow((rij/ra), N);
+    double denum = 1.0 - pow((rij/ra), M);
+    return num/denum;
+}
+
+void System::average_entropy(){
+    double entsum;
+    for(int i=0; i<nop; i++){
+        entsum = atoms[i].entropy;
+        for(int j=0; j<atoms[i].n_neighbors; j++){
+            entsum += atoms[atoms[i].neighbors[j]].entropy;
+        }
+        atoms[i].avg_entropy = entsum/(double(atoms[i].n_neighbors + 1));
+    }
+}
+
+void System::average_entropy_switch(double ra, int M, int N){
+
+    double frij;
+    double frijsum = 0.0;
+    double entfrijsum = 0.0;
+
+    for(int i=0; i<nop; i++){
+        
+        frijsum = 0.0;
+        entfrijsum = 0.0;
+
+        for(int j=0; j<atoms[i].n_neighbors; j++){
+            frij = switching_fn(atoms[i].neighbordist[j], ra, M, N);
+            frijsum += frij;
+            entfrijsum += atoms[atoms[i].neighbors[j]].entropy*frij;
+        }
+
+        atoms[i].avg_entropy = (entfrijsum + atoms[i].entropy)/(frijsum + 1.0);
+    }
+}
+
+
+void System::entropy(double sigma, double rho, double rstart, double rstop, double h, double kb){
+
+    for(int i=0; i<nop; i++){
+        
+        atoms[i].sigma = sigma;
+        //a density of zero asks for the local density of each atom
+        if (rho == 0){
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        else{
+            atoms[i].rho = rho;
+        }
+        atoms[i].rstart = rstart;
+        atoms[i].rstop = rstop;
+        atoms[i].h = h;
+        atoms[i].kb = kb;
+
+        atoms[i].trapezoid_integration();
+    }
+}
+
+
+void System::calculate_centrosymmetry_atom(int ti, int nmax){
+    /*
+    Calculate centrosymmetry parameter
+    */
+    //loop over neighbors
+    
+    double d, dx, dy, dz, weight;
+    int t1, t2;
+    vector<datom> temp;
+    int count = 0;
+
+    for(int i=0; i<atoms[ti].n_neighbors-1; i++){
+        for(int j=i+1; j<atoms[ti].n_neighbors; j++){
+            //now get dist vectors
+            dx = atoms[ti].n_diffx[i] + atoms[ti].n_diffx[j];
+            dy = atoms[ti].n_diffy[i] + atoms[ti].n_diffy[j];
+            dz = atoms[ti].n_diffz[i] + atoms[ti].n_diffz[j];
+            weight = sqrt(dx*dx+dy*dy+dz*dz);
+            datom x = {weight, count};
+            temp.emplace_back(x);
+            count++;            
+        }
+    }
+
+    //now sort
+    sort(temp.begin(), temp.end(), by_dist());
+
+    //now do the second loop
+    double csym = 0;
+
+    for(int i=0; i<nmax/2; i++){
+        csym += temp[i].dist*temp[i].dist;
+    }
+
+    atoms[ti].centrosymmetry = csym;
+}
+
+void System::calculate_centrosymmetry(int nmax){
+
+    reset_all_neighbors();
+    //the type filter of an earlier neighbor search does not apply here
+    filter = 0;
+    //look further if the guessed distance did not yield enough candidates
+    double prefactor = 3;
+    int found = get_all_neighbors_bynumber(prefactor, nmax, 1);
+    for(int i=0; (i<20) && (!found); i++){
+        prefactor *= 2;
+        reset_all_neighbors();
+        found = get_all_neighbors_bynumber(prefactor, nmax, 1);
+    }
+    if (!found)
+        throw runtime_error("Could not find enough neighbors for centrosymmetry");
+
+    //now loop over atoms and call
+    for(int ti=0; ti<nop; ti++){
+        calculate_centrosymmetry_atom(ti, nmax);
+    }
+}
+
+vector<double> System::get_centrosymmetry(){
+
+    vector<double> csm;
+    for (int i=0; i<real_nop; i++){
+        csm.emplace_back(atoms[i].centrosymmetry);
+    }
+    return csm;
+}
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 72d5bf2..1102fac 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -1,188 +1,188 @@
-#include <iostream>
-#include <iostream>
-#include <exception>
-#include <math.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <fstream>
-#include <string>
-#include <sstream>
-#include <time.h>
-#include <vector>
-#include <vector>
-#include <pybind11/pybind11.h>
-#include <pybind11/numpy.h>
-#include <pybind11/stl.h>
-#include "atom.h"
-
-namespace py = pybind11;
-using namespace std;
-
-struct cell{
-  vector<int> members;
-  vector<int> neighbor_cells;
-};
-
-
-class System{
-
-    public:
-
-        //-----------------------------------------------------
-        // Constructor, Destructor and Access functions
-        //-----------------------------------------------------
-        System();
-        ~System();
-        int nop;
-        int ghost_nop;
-        int real_nop;
-
-        //-----------------------------------------------------
-        // Simulation box related methods
-        //-----------------------------------------------------
-        double rot[3][3];
-        double rotinv[3][3];
-        int triclinic;
-        double boxx, boxy, boxz;
-        double boxdims[3][2];
-        double box[3][3];
-        void assign_triclinic_params(vector<vector<double>>, vector<vector<double>>);
-        vector<vector<double>> get_triclinic_params();
-        void sbox(vector<vector<double>>);
-        vector<vector<double>> gbox();
-        vector<double> remap_atom(vector<double>);
-
-        //-----------------------------------------------------
-        // Atom related methods
-        //-----------------------------------------------------
-        vector<Atom> atoms;
-        void assign_particles( vector<Atom>);
-        void read_particle_file(string);    // TBDep
-        void set_atoms( vector<Atom>);
-        vector<Atom> get_atoms();
-        void add_atoms( vector<Atom>);
-        vector<Atom> get_all_atoms();
-        Atom gatom(int);
-        void satom(Atom);
-
-
-        //----------------------------------------------------
-        // Neighbor methods
-        //----------------------------------------------------
-        int filter;
-        int usecells;
-        int nx, ny, nz;
-        int total_cells;
-        cell *cells;
-        double neighbordistance;
-        void get_all_neighbors_normal();
-        void check_neighbor_space(int);
-        bool is_filtered(int, int);
-        void process_neighbor(int, int);
-        int get_all_neighbors_sann(double);
-        int get_all_neighbors_bynumber(double, int, int);
-        int get_neighbors_from_temp(int);
-        int get_all_neighbors_adaptive(double, int, double);
-        void get_all_neighbors_voronoi();
-        void reset_all_neighbors();
-        void reset_main_neighbors();        
-        double get_abs_distance(int,int,double&,double&,double&);
-        double get_abs_distance(Atom , Atom );
-        vector<double> get_distance_vector(Atom , Atom);
-        void set_neighbordistance(double);
-        vector<double> get_pairdistances();
-        //variables for a filter
-        void susecells(int);
-        int gusecells();
-        int cell_index(int, int, int);
-        bool cells_possible();
-        void set_up_cells();
-        vector<int> cell_periodic(int, int, int);
-        void get_all_neighbors_cells();
-        void get_temp_neighbors_cells();
-        void get_temp_neighbors_brute();
-        void store_neighbor_info();
-        void set_atom_cutoff(double);
-
-        //---------------------------------------------------
-        // Methods for q calculation
-        //---------------------------------------------------
-        int *reqdqs;
-        int lenqs;
-        int *reqdaqs;
-        int lenaqs;
-        vector<double> gqvals(int qq);
-        vector<double> gaqvals(int qq);
-        vector<int> rq_backup;
-        void set_reqd_qs(vector<int>);
-        void set_reqd_aqs(vector<int>);
-        void calculate_q(vector <int>);
-        void calculate_aq(vector <int>);
-        double dfactorial(int ,int );
-        void convert_to_spherical_coordinates(double , double , double , double &, double &, double &);
-        double PLM(int, int, double);
-        void YLM(int , int , double , double , double &, double &);
-        void QLM(int ,int ,double ,double ,double &, double & );
-        void calculate_complexQLM_6();
-        double get_number_from_bond(int,int);
-        double get_number_from_bond(Atom ,Atom );
-        void calculate_frenkel_numbers();
-        //disorder vars
-        void calculate_disorder();
-        void find_average_disorder();        
-
-        //-----------------------------------------------------
-        // Solids and Clustering methods
-        //-----------------------------------------------------
-        double minfrenkel;
-        double threshold;
-        double avgthreshold;
-        int maxclusterid;
-        int solidq;
-        int criteria;
-        int comparecriteria;
-        void find_solid_atoms();
-        void find_clusters(double);
-        int real_index(int);
-        void harvest_cluster(const int, const int, const double);
-        void find_clusters_recursive(double);
-        int largest_cluster();
-        void set_nucsize_parameters(double,double,double);
-        void get_largest_cluster_atoms();
-
-        //-----------------------------------------------------
-        // Voronoi based methods
-        //-----------------------------------------------------
-        int alpha;
-        void find_average_volume();
-        int voronoiused;
-        double face_cutoff;
-        void set_face_cutoff(double);
-
-        //-------------------------------------------------------
-        // CNA parameters
-        //-------------------------------------------------------
-        double lattice_constant;
-        void get_diamond_neighbors();
-        vector<int> identify_diamond_structure();
-        void identify_cndia();
-        void get_cna_neighbors(int);
-        void get_acna_neighbors(int);
-        void get_common_neighbors(int);
-        void get_common_bonds(int);
-        void identify_cn12();
-        void identify_cn14();
-        vector<int> calculate_cna(int);
-
-        //-------------------------------------------------------
-        // Other order parameters
-        //-------------------------------------------------------
-        double switching_fn(double, double, int, int);
-        void average_entropy();
-        void average_entropy_switch(double, int, int);
-        void entropy(double, double, double, double, double, double);
-        void calculate_centrosymmetry_atom(int, int);
-        void calculate_centrosymmetry(int);
-        vector<double> get_centrosymmetry();
-
-};
+#include <iostream>
+#include <iostream>
+#include <exception>
+#include <math.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <fstream>
+#include <string>
+#include <sstream>
+#include <time.h>
+#include <vector>
+#include <vector>
+#include <pybind11/pybind11.h>
+#include <pybind11/numpy.h>
+#include <pybind11/stl.h>
+#include "atom.h"
+
+namespace py = pybind11;
+using namespace std;
+
+struct cell{
+  vector<int> members;
+  vector<int> neighbor_cells;
+};
+
+
+class System{
+
+    public:
+
+        //-----------------------------------------------------
+        // Constructor, Destructor and Access functions
+        //-----------------------------------------------------
+        System();
+        ~System();
+        int nop;
+        int ghost_nop;
+        int real_nop;
+
+        //-----------------------------------------------------
+        // Simulation box related methods
+        //-----------------------------------------------------
+        double rot[3][3];
+        double rotinv[3][3];
+        int triclinic;
+        double boxx, boxy, boxz;
+        double boxdims[3][2];
+        double box[3][3];
+        void assign_triclinic_params(vector<vector<double>>, vector<vector<double>>);
+        vector<vector<double>> get_triclinic_params();
+        void sbox(vector<vector<double>>);
+        vector<vector<double>> gbox();
+        vector<double> remap_atom(vector<double>);
+
+        //-----------------------------------------------------
+        // Atom related methods
+        //-----------------------------------------------------
+        vector<Atom> atoms;
+        void assign_particles( vector<Atom>);
+        void read_particle_file(string);    // TBDep
+        void set_atoms( vector<Atom>);
+        vector<Atom> get_atoms();
+        void add_atoms( vector<Atom>);
+        vector<Atom> get_all_atoms();
+        Atom gatom(int);
+        void satom(Atom);
+
+
+        //----------------------------------------------------
+        // Neighbor methods
+        //----------------------------------------------------
+        int filter;
+        int usecells;
+        int nx, ny, nz;
+        int total_cells;
+        cell *cells;
+        double neighbordistance;
+        void get_all_neighbors_normal();
+        void check_neighbor_space(int);
+        bool is_filtered(int, int);
+        void process_neighbor(int, int);
+        int get_all_neighbors_sann(double);
+        int get_all_neighbors_bynumber(double, int, int);
+        int get_neighbors_from_temp(int);
+        int get_all_neighbors_adaptive(double, int, double);
+        void get_all_neighbors_voronoi();
+        void reset_all_neighbors();
+        void reset_main_neighbors();        
+        double get_abs_distance(int,int,double&,double&,double&);
+        double get_abs_distance(Atom , Atom );
+        vector<double> get_distance_vector(Atom , Atom);
+        void set_neighbordistance(double);
+        vector<double> get_pairdistances();
+        //variables for a filter
+        void susecells(int);
+        int gusecells();
+        int cell_index(int, int, int);
+        bool cells_possible();
+        void set_up_cells();
+        vector<int> cell_periodic(int, int, int);
+        void get_all_neighbors_cells();
+        void get_temp_neighbors_cells();
+        void get_temp_neighbors_brute();
+        void store_neighbor_info();
+        void set_atom_cutoff(double);
+
+        //---------------------------------------------------
+        // Methods for q calculation
+        //---------------------------------------------------
+        int *reqdqs;
+        int lenqs;
+        int *reqdaqs;
+        int lenaqs;
+        vector<double> gqvals(int qq);
+        vector<double> gaqvals(int qq);
+        vector<int> rq_backup;
+        void set_reqd_qs(vector<int>);
+        void set_reqd_aqs(vector<int>);
+        void calculate_q(vector <int>);
+        void calculate_aq(vector <int>);
+        double dfactorial(int ,int );
+        void convert_to_spherical_coordinates(double , double , double , double &, double &, double &);
+        double PLM(int, int, double);
+        void YLM(int , int , double , double , double &, double &);
+        void QLM(int ,int ,double ,double ,double &, double & );
+        void calculate_complexQLM_6();
+        double get_number_from_bond(int,int);
+        double get_number_from_bond(Atom ,Atom );
+        void calculate_frenkel_numbers();
+        //disorder vars
+        void calculate_disorder();
+        void find_average_disorder();        
+
+        //-----------------------------------------------------
+        // Solids and Clustering methods
+        //-----------------------------------------------------
+        double minfrenkel;
+        double threshold;
+        double avgthreshold;
+        int maxclusterid;
+        int solidq;
+        int criteria;
+        int comparecriteria;
+        void find_solid_atoms();
+        void find_clusters(double);
+        int real_index(int);
+        void harvest_cluster(const int, const int, const double);
+        void find_clusters_recursive(double);
+        int largest_cluster();
+        void set_nucsize_parameters(double,double,double);
+        void get_largest_cluster_atoms();
+
+        //-----------------------------------------------------
+        // Voronoi based methods
+        //-----------------------------------------------------
+        int alpha;
+        void find_average_volume();
+        int voronoiused;
+        double face_cutoff;
+        void set_face_cutoff(double);
+
+        //-------------------------------------------------------
+        // CNA parameters
+        //-------------------------------------------------------
+        double lattice_constant;
+        void get_diamond_neighbors();
+        vector<int> identify_diamond_structure();
+        void identify_cndia();
+        void get_cna_neighbors(int);
+        void get_acna_neighbors(int);
+        void get_common_neighbors(int);
+        void get_common_bonds(int);
+        void identify_cn12();
+        void identify_cn14();
+        vector<int> calculate_cna(int);
+
+        //-------------------------------------------------------
+        // Other order parameters
+        //-------------------------------------------------------
+        double switching_fn(double, double, int, int);
+        void average_entropy();
+        void average_entropy_switch(double, int, int);
+        void entropy(double, double, double, double, double, double);
+        void calculate_centrosymmetry_atom(int, int);
+        void calculate_centrosymmetry(int);
+        vector<double> get_centrosymmetry();
+
+};
-- 
2.43.0


From eabacca771d822360979763abb4dc9effb065ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 60/80] fix: remap_atoms uses whole cell vectors, in triclinic
 cells and for atoms further away

---
 src/pyscal/core.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 86d0205..27fe121 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2177,30 +2177,18 @@ class System(pc.System):
         atoms = self.atoms
         newatoms = []
 
+        #whole cell vectors that bring the atoms back
+        cell = np.array(box).T
         for atom in atoms:
-            pos = atom.pos
-            if pos[0] < 0:
-                pos[0] = pos[0]+box[0][0]
-            elif pos[0] >= box[0][0]:
-                pos[0] = pos[0]-box[0][0]
-            if pos[1] < 0:
-                pos[1] = pos[1]+box[1][1]
-            elif pos[1] >= box[1][1]:
-                pos[1] = pos[1]-box[1][1]
-            if pos[2] < 0:
-                pos[2] = pos[2]+box[2][2]
-            elif pos[2] >= box[2][2]:
-                pos[2] = pos[2]-box[2][2]
-            atom.pos = pos
+            shift = np.floor(np.linalg.solve(cell, atom.pos))
+            atom.pos = list(np.array(atom.pos) - cell@shift)
             
         if remove_atoms:
             temp = []
             for atom in atoms:
-                pos = atom.pos
-                if (0 <= pos[0] < box[0][0]):
-                    if (0 <= pos[1] < box[1][1]):
-                        if (0 <= pos[2] < box[2][2]):
-                            temp.append(atom)
+                frac = np.linalg.solve(cell, atom.pos)
+                if np.all((0 <= frac) & (frac < 1)):
+                    temp.append(atom)
             atoms = temp
         
         if remove_images:
-- 
2.43.0


From 2e755d039da345a82185e09439aa3f65da79d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:41 +0000
Subject: [PATCH 61/80] fix: find_tetrahedral_voids: neighbors that are images,
 and coordinates in the cell

---
 src/pyscal/misc.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 3ccdf97..95a0032 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -134,19 +134,14 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
     pos = []
     types = []
 
-    box = sys.box
-    boxx = box[0][1] - box[0][0]
-    boxy = box[1][1] - box[1][0]
-    boxz = box[2][1] - box[2][0]
+    cell = np.array(sys.box).T
 
     if len(atoms) < 21:
         warnings.warn("Very less number of atoms, results maybe wrong. See https://github.com/srmnitc/pyscal/issues/63 ")
 
     for atom in atoms:
         if atom.vorovector[1] == 4:
-            #first to prevent small cells we need to filter
-            neighs = np.unique(atom.neighbors)
-            dists = np.array([sys.get_distance(atom, atoms[x]) for x in neighs])
+            dists = np.array(atom.neighbor_distance)
             mindist = dists[np.argsort(dists)][0]
             mindistcount = 0
             for i in range(len(dists)):
@@ -156,8 +151,7 @@ def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_s
             if mindistcount == 4:
                 volumes.append(atom.volume)
                 if direct_coordinates:
-                    p = atom.pos
-                    pos.append([p[0]/boxx, p[1]/boxy, p[2]/boxz])
+                    pos.append(list(np.linalg.solve(cell, atom.pos)))
                 else:
                     pos.append(atom.pos)
                 types.append(atom.type)
-- 
2.43.0


From 340f1ddc22889ff20cbb38911feb05e40599416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:05 +0000
Subject: [PATCH 62/80] fix: compare_atomic_env returns data also when volumes
 and polyhedra differ in number

---
 src/pyscal/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 95a0032..93f1a5e 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -80,9 +80,9 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
             return sys
     else:
         if return_system:
-            return np.array([vvx, vrx, vvc]), sys
+            return np.array([vvx, vrx, vvc], dtype=object), sys
         else:
-            return np.array([vvx, vrx, vvc])
+            return np.array([vvx, vrx, vvc], dtype=object)
 
 
 def find_tetrahedral_voids(infile, format="poscar", print_results=True, return_system=False, 
-- 
2.43.0


From 62fe4232a5b9ce136653a9ee11e5568e9192ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 63/80] fix: repeat gives new atoms ids that are not in use

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 27fe121..5a8d880 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2001,7 +2001,7 @@ class System(pc.System):
             atoms = self.atoms
 
         newatoms = []
-        idstart = len(atoms) + 1
+        idstart = max([len(atoms)] + [atom.id for atom in atoms]) + 1
 
         x1 = -reps[0]
         x2 = reps[0]+1
-- 
2.43.0


From 3d4a456bcc81b55f49ce8f26da63d39c8557f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 64/80] fix: distances of atoms that are more than one and a
 half boxes apart

---
 src/pyscal/system.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d2750a5..96a2040 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -255,6 +255,11 @@ void System::satom(Atom atom1) {
 // Neighbor methods
 //----------------------------------------------------
 
+//atoms can be any number of boxes apart: leave less than one box
+static double within_box(double d, double length){
+    return ((length > 0) && (fabs(d) >= length)) ? fmod(d, length) : d;
+}
+
 double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,double &diffz){
 
     double abs, ax, ay, az;
@@ -276,6 +281,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
 
         //now check pbc
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -304,6 +312,9 @@ double System::get_abs_distance(int ti ,int tj,double &diffx ,double &diffy,doub
     }
     else{
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -337,6 +348,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -366,6 +380,9 @@ double System::get_abs_distance(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -401,6 +418,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
 
         //now check pbc
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -427,6 +447,9 @@ vector<double> System::get_distance_vector(Atom atom1 , Atom atom2 ){
     else{
 
         //nearest image
+        diffx = within_box(diffx, boxx);
+        diffy = within_box(diffy, boxy);
+        diffz = within_box(diffz, boxz);
         if (diffx> boxx/2.0) {diffx-=boxx;};
         if (diffx<-boxx/2.0) {diffx+=boxx;};
         if (diffy> boxy/2.0) {diffy-=boxy;};
@@ -607,6 +630,9 @@ vector<double> System::remap_atom(vector<double> pos){
 
         //now check pbc
         //nearest image
+        dx = within_box(dx, boxx);
+        dy = within_box(dy, boxy);
+        dz = within_box(dz, boxz);
         if (dx> boxx/2.0) {dx-=boxx;};
         if (dx<-boxx/2.0) {dx+=boxx;};
         if (dy> boxy/2.0) {dy-=boxy;};
@@ -630,6 +656,9 @@ vector<double> System::remap_atom(vector<double> pos){
         dz = az;
     }
     else{
+        dx = within_box(dx, boxx);
+        dy = within_box(dy, boxy);
+        dz = within_box(dz, boxz);
         if (dx < 0) dx+=boxx;
         else if (dx >= boxx) dx-=boxx;
         if (dy < 0) dy+=boxy;
-- 
2.43.0


From d40a5f0c289a2f42b9390aa93cc357188dc1b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:26 +0000
Subject: [PATCH 65/80] fix: Voronoi tessellation of triclinic systems with
 atoms outside the cell or with few atoms

---
 src/pyscal/system.cpp | 27 +++++++++++++++++++++++++--
 src/pyscal/system.h   |  1 +
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 96a2040..de136b1 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -674,6 +674,26 @@ vector<double> System::remap_atom(vector<double> pos){
 
 }
 
+//position in a triclinic system that is extended by images: atoms that are not images
+//come to lie in the cell in the middle, with their images all around it
+vector<double> System::central_position(int ti){
+    int real = real_index(ti);
+    if (real < 0) real = ti;
+    double reps = (real_nop > 0) ? round(cbrt(double(nop)/real_nop)) : 1.0;
+    double f, g[3];
+    for(int k=0; k<3; k++){
+        f = rotinv[k][0]*atoms[real].posx + rotinv[k][1]*atoms[real].posy + rotinv[k][2]*atoms[real].posz;
+        g[k] = rotinv[k][0]*atoms[ti].posx + rotinv[k][1]*atoms[ti].posy + rotinv[k][2]*atoms[ti].posz;
+        g[k] -= (floor(f*reps) + 0.5)/reps;
+        g[k] += 0.5/reps - round(g[k]);
+    }
+    vector<double> pos;
+    for(int k=0; k<3; k++){
+        pos.emplace_back(rot[k][0]*g[0] + rot[k][1]*g[1] + rot[k][2]*g[2]);
+    }
+    return pos;
+}
+
 vector<int> System::cell_periodic(int i, int j, int k){
     vector<int> ci;
     //apply periodic conditions
@@ -2035,7 +2055,7 @@ void System::get_all_neighbors_voronoi(){
     pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
     for(int i=0; i<nop; i++){
         pos = atoms[i].gx();
-        pos = remap_atom(pos);
+        pos = (triclinic == 1) ? central_position(i) : remap_atom(pos);
         pcon.put(i, pos[0], pos[1], pos[2]);
     }
     pcon.guess_optimal(tnx,tny,tnz);
@@ -2140,7 +2160,10 @@ void System::find_average_volume(){
         nn = atoms[ti].n_neighbors;
         vv = atoms[ti].volume;
         for (int ci = 0;ci<nn;ci++){
-            vv += atoms[atoms[ti].neighbors[ci]].volume;
+            //images at the border of the extended system have no volume of their own
+            int neigh = real_index(atoms[ti].neighbors[ci]);
+            if (neigh < 0) neigh = atoms[ti].neighbors[ci];
+            vv += atoms[neigh].volume;
         }
         vv = vv/(double(nn+1));
         atoms[ti].avgvolume = vv;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 1102fac..645d225 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -51,6 +51,7 @@ class System{
         void sbox(vector<vector<double>>);
         vector<vector<double>> gbox();
         vector<double> remap_atom(vector<double>);
+        vector<double> central_position(int);
 
         //-----------------------------------------------------
         // Atom related methods
-- 
2.43.0


From 6b849e32419ca1e29b0611759d0912d925ccdb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 66/80] fix: Voronoi neighbors of triclinic systems with atoms
 outside the cell

---
 src/pyscal/system.cpp | 25 +++++++++++++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 26 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index de136b1..e51ca96 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -694,6 +694,26 @@ vector<double> System::central_position(int ti){
     return pos;
 }
 
+//of an atom and its images, the one with the displacement from ti nearest to that between two points
+int System::image_at(int ti, int tj, vector<double> from, vector<double> to){
+    double dx, dy, dz, error, minerror = 1E30;
+    int best = tj;
+    int real = real_index(tj);
+    if (real < 0) return tj;
+    for(int image=real; image<nop; image += real_nop){
+        get_abs_distance(ti, image, dx, dy, dz);
+        dx -= to[0]-from[0];
+        dy -= to[1]-from[1];
+        dz -= to[2]-from[2];
+        error = dx*dx + dy*dy + dz*dz;
+        if (error < minerror){
+            minerror = error;
+            best = image;
+        }
+    }
+    return best;
+}
+
 vector<int> System::cell_periodic(int i, int j, int k){
     vector<int> ci;
     //apply periodic conditions
@@ -2050,12 +2070,14 @@ void System::get_all_neighbors_voronoi(){
     //vector<int> nvector;
     double weightsum;
     vector <double> pos;
+    vector< vector<double> > placed;
 
     //pre_container pcon(boxdims[0][0],boxdims[1][1],boxdims[1][0],boxdims[1][1],boxdims[2][0],boxdims[2][1],true,true,true);
     pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
     for(int i=0; i<nop; i++){
         pos = atoms[i].gx();
         pos = (triclinic == 1) ? central_position(i) : remap_atom(pos);
+        placed.emplace_back(pos);
         pcon.put(i, pos[0], pos[1], pos[2]);
     }
     pcon.guess_optimal(tnx,tny,tnz);
@@ -2115,6 +2137,9 @@ void System::get_all_neighbors_voronoi(){
             //}
             for (int tj=0; tj<neigh.size(); tj++){
 
+                //atoms were placed elsewhere: take the image that is at the same displacement
+                if (triclinic == 1) neigh[tj] = image_at(ti, neigh[tj], placed[ti], placed[neigh[tj]]);
+
                 //if filter doesnt work continue
                 if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                     continue;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 645d225..60c3a16 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -52,6 +52,7 @@ class System{
         vector<vector<double>> gbox();
         vector<double> remap_atom(vector<double>);
         vector<double> central_position(int);
+        int image_at(int, int, vector<double>, vector<double>);
 
         //-----------------------------------------------------
         // Atom related methods
-- 
2.43.0


From 39c52ddf3fec40781c995a2928a41cc7398d9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 67/80] fix: Voronoi cells of images in triclinic systems are
 those of their atoms

---
 src/pyscal/system.cpp | 36 +++++++++++++++++++++++++++++++-----
 src/pyscal/system.h   |  1 +
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index e51ca96..66204e0 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -714,6 +714,29 @@ int System::image_at(int ti, int tj, vector<double> from, vector<double> to){
     return best;
 }
 
+//an image has the Voronoi cell of its atom, with the images that surround it as neighbors
+void System::copy_voronoi_cell(int ti){
+    int real = real_index(ti);
+    if (real < 0) return;
+    Atom image = atoms[real];
+    image.posx = atoms[ti].posx;
+    image.posy = atoms[ti].posy;
+    image.posz = atoms[ti].posz;
+    image.id = atoms[ti].id;
+    image.loc = atoms[ti].loc;
+    image.ghost = atoms[ti].ghost;
+    for(int tj=0; tj<image.n_neighbors; tj++){
+        vector<double> to = {image.n_diffx[tj], image.n_diffy[tj], image.n_diffz[tj]};
+        image.neighbors[tj] = image_at(ti, image.neighbors[tj], {0, 0, 0}, to);
+    }
+    for(int vi=0; vi<image.vertex_positions.size(); vi++){
+        image.vertex_positions[vi][0] += image.posx - atoms[real].posx;
+        image.vertex_positions[vi][1] += image.posy - atoms[real].posy;
+        image.vertex_positions[vi][2] += image.posz - atoms[real].posz;
+    }
+    atoms[ti] = image;
+}
+
 vector<int> System::cell_periodic(int i, int j, int k){
     vector<int> ci;
     //apply periodic conditions
@@ -2086,7 +2109,8 @@ void System::get_all_neighbors_voronoi(){
     pcon.setup(con);
 
     c_loop_all cl(con);
-    if (cl.start()) do if(con.compute_cell(c,cl)) {
+    //the cells of images can be at the border of a triclinic system, they are copied below
+    if (cl.start()) do if(!((triclinic == 1) && atoms[cl.pid()].ghost) && con.compute_cell(c,cl)) {
             ti=cl.pid();
             c.face_areas(facearea);
             c.neighbors(neigh);
@@ -2169,6 +2193,11 @@ void System::get_all_neighbors_voronoi(){
 
     } while (cl.inc());
 
+    if (triclinic == 1){
+        for(int ti=0; ti<nop; ti++){
+            if (atoms[ti].ghost) copy_voronoi_cell(ti);
+        }
+    }
 
     //now calculate the averged volume
     find_average_volume();
@@ -2185,10 +2214,7 @@ void System::find_average_volume(){
         nn = atoms[ti].n_neighbors;
         vv = atoms[ti].volume;
         for (int ci = 0;ci<nn;ci++){
-            //images at the border of the extended system have no volume of their own
-            int neigh = real_index(atoms[ti].neighbors[ci]);
-            if (neigh < 0) neigh = atoms[ti].neighbors[ci];
-            vv += atoms[neigh].volume;
+            vv += atoms[atoms[ti].neighbors[ci]].volume;
         }
         vv = vv/(double(nn+1));
         atoms[ti].avgvolume = vv;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 60c3a16..cca5fae 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -53,6 +53,7 @@ class System{
         vector<double> remap_atom(vector<double>);
         vector<double> central_position(int);
         int image_at(int, int, vector<double>, vector<double>);
+        void copy_voronoi_cell(int);
 
         //-----------------------------------------------------
         // Atom related methods
-- 
2.43.0


From 8db1b3fa992220e1dcf5926eca9502f52e958d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:52 +0000
Subject: [PATCH 68/80] fix: boxes whose components add up to zero are not
 uninitialized boxes

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 5a8d880..c0c38e7 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -165,7 +165,7 @@ class System(pc.System):
             nx = int(needed_cells**(1/3))
             nx = int(np.ceil(nx/2))
 
-            if np.sum(self.box) == 0:
+            if not np.any(self.box):
                 raise ValueError("Simulation box should be initialized before atoms")
             atoms = self.repeat((nx, nx, nx), atoms=atoms, ghost=True, scale_box=True)
 
-- 
2.43.0


From df793cc28bfc24fc09e917533f321d94f2dd543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 69/80] fix: compare_atomic_env listed fingerprints next to
 volumes they do not belong to

---
 src/pyscal/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/misc.py b/src/pyscal/misc.py
index 93f1a5e..e67fc33 100644
--- a/src/pyscal/misc.py
+++ b/src/pyscal/misc.py
@@ -60,8 +60,12 @@ def compare_atomic_env(infile, atomtype=2, precision=2, format="poscar", print_r
     vvx, vvc = np.unique(vols, return_counts=True)
     vrx, vrc = np.unique(vors, return_counts=True)
 
+    #the fingerprints are listed in the order of the volumes they belong to
+    pairs = set(zip(vols, vors))
     length_mismatch = False
-    if (len(vvx) != len(vrx)):
+    if (len(vvx) == len(vrx) == len(pairs)):
+        vrx = np.array([dict(pairs)[vol] for vol in vvx])
+    else:
         warnings.warn("Different voronoi polyhedra with same volume! Fingerprint wont be printed. Maybe change precision?")
         length_mismatch = True
 
-- 
2.43.0


From b4d9762c9a8903075b961acdb4cd136f71118e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 70/80] fix: the entropy average with a switching function was
 not a number when a neighbor was exactly at the distance ra

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 66204e0..1b0a247 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2695,6 +2695,9 @@ vector<int> System::calculate_cna(int method){
 //Methods for entropy
 double System::switching_fn(double rij, double ra, int M, int N){
 
+    //both vanish here, this is the limit
+    if (rij == ra) return double(N)/double(M);
+
     double num = 1.0 - pow((rij/ra), N);
     double denum = 1.0 - pow((rij/ra), M);
     return num/denum;
-- 
2.43.0


From 1de5553fe95e74ca92786e6c834b7f43875795fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:08 +0000
Subject: [PATCH 71/80] fix: some attributes of new atoms had no initial value

---
 src/pyscal/atom.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 386f066..874cb3a 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -33,6 +33,30 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     avg_entropy = 0;
     energy = 0;
     avg_energy = 0;
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    volume = 0;
+    avgvolume = 0;
+    n3 = 0;
+    n4 = 0;
+    n5 = 0;
+    n6 = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    sigma = 0;
+    rho = 0;
+    rstart = 0;
+    rstop = 0;
+    h = 0;
+    kb = 0;
 
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
@@ -44,6 +68,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
-- 
2.43.0


From c54b6b8056457600a68d9e6ee1abac2ff23d6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 72/80] fix: lists of the wrong length and orders outside 2-12
 read and wrote outside the arrays of an atom

---
 src/pyscal/atom.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 874cb3a..af38419 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -8,11 +8,28 @@
 #include <pybind11/stl.h>
 #include <complex>
 
+//lists have a given length, or at most as many members as there can be neighbors
+static void need_length(size_t length, size_t needed){
+    if (length != needed)
+        throw invalid_argument("the list should have " + to_string(needed) + " values");
+}
+
+static void need_space(size_t length){
+    if (length > MAXNUMBEROFNEIGHBORS)
+        throw invalid_argument("an atom can have at most " + to_string(MAXNUMBEROFNEIGHBORS) + " neighbors");
+}
+
+static void need_q(int q){
+    if ((q < 2) || (q > 12))
+        throw invalid_argument("q value should be between 2-12");
+}
+
 //-------------------------------------------------------
 // Constructor, Destructor
 //-------------------------------------------------------
 Atom::Atom( vector<double> pos, int idd, int typ){
 
+    need_length(pos.size(), 3);
     posx = pos[0];
     posy = pos[1];
     posz = pos[2];
@@ -109,6 +126,7 @@ vector<double> Atom::gx(){
 }
 
 void Atom::sx(vector<double> rls){
+    need_length(rls.size(), 3);
     posx = rls[0];
     posy = rls[1];
     posz = rls[2];
@@ -141,6 +159,8 @@ vector<double> Atom::gneighdist(){
 
 void Atom::sneighbors(vector<int> nns){
 
+    need_space(nns.size());
+
     //first reset all neighbors
     for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
         neighbors[i] = NILVALUE;
@@ -160,6 +180,7 @@ void Atom::sneighbors(vector<int> nns){
 }
 
 void Atom::sneighborweights(vector<double> nss){
+    need_space(nss.size());
     for(int i=0; i<nss.size(); i++){
         neighborweight[i] = nss[i];
     }
@@ -241,12 +262,14 @@ vector<double> Atom::gallaq(){
 }
 
 void Atom::sallq(vector<double> allq){
+    need_length(allq.size(), 11);
     for(int i=0; i<11; i++){
         q[i] = allq[i];
     }
 }
 
 void Atom::sallaq(vector<double> allaq){
+    need_length(allaq.size(), 11);
     for(int i=0; i<11; i++){
         aq[i] = allaq[i];
     }
@@ -303,6 +326,12 @@ vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
 //overloaded version which takes a vector
 void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
+    //all or none
+    need_length(setvals.size(), qval.size());
+    for(int i=0; i<qval.size(); i++){
+        need_q(qval[i]);
+    }
+
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
@@ -327,6 +356,7 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
 vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 
+  need_q(qq);
   vector<complex<double>> qlms;
   qlms.reserve(2*qq+1);
   if (!averaged){
@@ -356,6 +386,7 @@ vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 // Voronoi related properties
 //-------------------------------------------------------
 void Atom::sfacevertices(vector<int> nss){
+    need_space(nss.size());
     for(int i=0; i<nss.size(); i++){
         facevertices[i] = nss[i];
     }
@@ -370,6 +401,7 @@ vector<int> Atom::gfacevertices(){
 }
 
 void Atom::sfaceperimeters(vector<double> nss){
+    need_space(nss.size());
     for(int i=0; i<nss.size(); i++){
         faceperimeters[i] = nss[i];
     }
@@ -412,6 +444,8 @@ vector<int> Atom::gvorovector(){
 
 void Atom::svorovector(vector<int> voro){
 
+    need_length(voro.size(), 4);
+
     n3 = voro[0];
     n4 = voro[1];
     n5 = voro[2];
-- 
2.43.0


From 1c2a5bdec4e9e3e31e67d9142844261984729441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:11 +0000
Subject: [PATCH 73/80] fix: calculate_energy raised an error for the name of a
 species, its own default

---
 src/pyscal/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c0c38e7..2652f9b 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1953,6 +1953,10 @@ class System(pc.System):
         are used for averaging. Otherwise neighbors are calculated on the fly
         with an adaptive cutoff method.
         """
+        #name of a single species
+        if isinstance(species, str):
+            species = [species]
+
         outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
         aseobject = self.to_file(outfile, format='lammps-data', species=species)
 
-- 
2.43.0


From eb146f13e94e635e4d83d3434f5815ae0c2a563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:36 +0000
Subject: [PATCH 74/80] fix: calculate_energy took energies by the ids of
 atoms, which the file for LAMMPS does not have

---
 src/pyscal/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 2652f9b..07fd6e6 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1966,8 +1966,9 @@ class System(pc.System):
 
         atoms = self.atoms
     
-        for atom in atoms:
-            atom.energy = indict[str(atom.id)]
+        #in the file, atoms are numbered in the order in which they are listed
+        for count, atom in enumerate(atoms):
+            atom.energy = indict[str(count+1)]
 
         #clean up
         os.remove(outfile)
-- 
2.43.0


From 4d838750ecf85abcf7295e7ccb593d6a3f5a089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 75/80] fix: calculate_energy ignored the mass

---
 src/pyscal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 07fd6e6..6e0c35a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1962,7 +1962,7 @@ class System(pc.System):
 
         indict = routines.get_energy_atom(outfile, species=species,
             pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=1.0)
+            mass=mass)
 
         atoms = self.atoms
     
-- 
2.43.0


From 03a60dd27f438c97f377b607ed5680b2bb5dedc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:28 +0000
Subject: [PATCH 76/80] fix: averaged energies used no neighbors when found by
 the call, failed with images, and the neighbors were lost

---
 src/pyscal/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 6e0c35a..114afb9 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1973,15 +1973,19 @@ class System(pc.System):
         #clean up
         os.remove(outfile)
 
+        #images of atoms and neighbors are kept
+        self._update_atoms(atoms)
+
         if averaged:
             if not self.neighbors_found:
                 self.find_neighbors(method="cutoff", cutoff=0)
 
-        for atom in atoms:
-            neteng = np.sum([atoms[x].energy for x in atom.neighbors])
-            atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
-
-        self.atoms = atoms
+            #neighbors can also be images of atoms
+            atoms = self.atoms
+            for atom in atoms:
+                neteng = np.sum([atoms[x % len(atoms)].energy for x in atom.neighbors])
+                atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
+            self._update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
-- 
2.43.0


From 52a7df07fb3a59a83b1d20636b4fb28cc012e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:53 +0000
Subject: [PATCH 77/80] fix: calculate_energy left its file behind when LAMMPS
 failed

---
 src/pyscal/core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 114afb9..a775fec 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1958,11 +1958,16 @@ class System(pc.System):
             species = [species]
 
         outfile = os.path.join(os.getcwd(), str(uuid.uuid4().hex))
-        aseobject = self.to_file(outfile, format='lammps-data', species=species)
+        try:
+            aseobject = self.to_file(outfile, format='lammps-data', species=species)
 
-        indict = routines.get_energy_atom(outfile, species=species,
-            pair_style=pair_style, pair_coeff=pair_coeff,
-            mass=mass)
+            indict = routines.get_energy_atom(outfile, species=species,
+                pair_style=pair_style, pair_coeff=pair_coeff,
+                mass=mass)
+        finally:
+            #clean up
+            if os.path.exists(outfile):
+                os.remove(outfile)
 
         atoms = self.atoms
     
@@ -1970,9 +1975,6 @@ class System(pc.System):
         for count, atom in enumerate(atoms):
             atom.energy = indict[str(count+1)]
 
-        #clean up
-        os.remove(outfile)
-
         #images of atoms and neighbors are kept
         self._update_atoms(atoms)
 
-- 
2.43.0


From 6d8973ede886b0a188ee7afbfbc570deb240961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:22 +0000
Subject: [PATCH 78/80] fix: atoms that were filtered out of a plot gave their
 colors to others

---
 src/pyscal/visualization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 915bfc0..5e8145f 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -154,11 +154,11 @@ def plot_system(sys, colorby=None, filterby=None):
     colors = []
     filters = []
     for count, atom in enumerate(atoms):
+        #atoms which are not plotted have no color either
         if filterby is not None:
-            if sys.get_custom(atom, [filterby])[0]:
-                positions.append(np.array(sys.remap_atom(atom.pos)))
-        else:
-            positions.append(np.array(sys.remap_atom(atom.pos)))
+            if not sys.get_custom(atom, [filterby])[0]:
+                continue
+        positions.append(np.array(sys.remap_atom(atom.pos)))
     
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
@@ -177,6 +177,6 @@ def plot_system(sys, colorby=None, filterby=None):
     radius = widgets.FloatSlider(min=1, max=30, step=1)
     widgets.interact_manual.opts['manual_name'] = 'Render plot'
     im = widgets.interact_manual(plot_3d, radius=radius, 
-        pos=widgets.fixed(np.array(positions)), cmap_title=widgets.fixed(ctitle),
+        pos=widgets.fixed(np.array(positions).reshape(-1, 3)), cmap_title=widgets.fixed(ctitle),
         color=widgets.fixed(colors), opacity=widgets.fixed(1.0), 
         traces=widgets.fixed(boxtraces), description="test")
\ No newline at end of file
-- 
2.43.0


From 7c332c9ee91b2f3e05ae8512e82575f2a685e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 79/80] fix: plotting again also drew the atoms of the earlier
 plots

---
 src/pyscal/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index 5e8145f..dda21d2 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -101,8 +101,8 @@ def plot_3d(pos, color=None, radius=17,
             line=dict(width=0.5, color='#455A64')
         )
     )
-    traces.append(data)
-    fig = go.Figure(data=traces)
+    #the traces of the box are used again for the next plot
+    fig = go.Figure(data=list(traces) + [data])
     fig.update_layout(scene = dict(
                         xaxis_title="",
                         yaxis_title="",
-- 
2.43.0


From 0821e4a07f59a66091a791ffda3596dccb404774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:16 +0000
Subject: [PATCH 80/80] fix: atoms outside of triclinic boxes and small systems
 were plotted outside the box

---
 src/pyscal/visualization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/visualization.py b/src/pyscal/visualization.py
index dda21d2..0290afc 100644
--- a/src/pyscal/visualization.py
+++ b/src/pyscal/visualization.py
@@ -150,6 +150,7 @@ def plot_system(sys, colorby=None, filterby=None):
     None  
     """
     atoms = sys.atoms
+    cell = np.array(sys.box).T
     positions = []
     colors = []
     filters = []
@@ -158,7 +159,9 @@ def plot_system(sys, colorby=None, filterby=None):
         if filterby is not None:
             if not sys.get_custom(atom, [filterby])[0]:
                 continue
-        positions.append(np.array(sys.remap_atom(atom.pos)))
+        #back into the box, with whole cell vectors
+        pos = np.array(atom.pos)
+        positions.append(pos - cell@np.floor(np.linalg.solve(cell, pos)))
     
         if colorby is not None:
             cx = sys.get_custom(atom, [colorby])[0]
-- 
2.43.0

